"""Determinism self-test: every case twice, in different processes and directories; histories, outputs and verdicts compared."""
import multiprocessing as mp, os, shutil
import engine, props
def one(a):
    pid, seed, i, root = a
    prop = props.PROPS[pid]; ctx = engine.Ctx(os.path.join(root, "p%d" % os.getpid()))
    case = engine.case_of(prop, seed, i)
    try: v, rs = engine.execute(prop, case, ctx)
    except engine.Harness as e: return i, ("harness", str(e))
    return i, (sorted(v), [(r.hash, r.rc, r.out, r.err, r.steps, r.t, sorted((k, hash(c)) for k, c in r.tree.items())) for r in rs])
def main(pid, n, seed=1):
    if engine.build(props.PROPS[pid]).returncode: return 2
    root = os.path.join(engine.scratch_root(), "verif-det-%d" % os.getpid()); os.makedirs(root)
    try:
        res = []
        for w in (8, 3):
            with mp.get_context("fork").Pool(w, maxtasksperchild=7) as p: res.append(dict(p.imap_unordered(one, [(pid, seed, i, root) for i in range(n)])))
        bad = [i for i in res[0] if res[0][i] != res[1][i]]
        print("%s: %d cases, %d differ %s" % (pid, n, len(bad), bad[:5])); return 1 if bad else 0
    finally: shutil.rmtree(root, ignore_errors=True)
