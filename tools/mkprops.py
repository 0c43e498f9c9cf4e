#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
R="crates/cryptovampire/src/"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={"files":[R+f if not f.startswith("crates") else f for f in files],
       "mechanism":[{"name":n,"where":R+w} for n,w in mech],"hook_needed":None}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":R+w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
RUN=["runner/runners.rs","runner/runner.rs","runner/runner_helper.rs","runner/z3.rs","runner/vampire.rs","lib.rs","main.rs"]
NOTEST="No existing test drives more than one solver: the suite runs z3 alone, one round, fault-free, on nine protocol files, and the unit tests never start a process."

p("C01","'Proven' is only ever reported on a genuine refutation",
  "In automatic mode the tool reports success for a problem only if, in the round it reports, a solver that was started on that problem's complete file ended by itself with its own refutation answer (vampire: exit status 0; z3: exit status 0 and last output line 'unsat'), and every queued problem (each lemma, the query) was refuted that way. Timeouts, 'unknown', crashes, killed solvers, truncated or garbled output, failed launches and I/O errors never turn into a success report.",
  ["schedules","fault_sequences","histories"],"every interleaving of the solver threads, every combination and timing of solver answers, and every solver, process and I/O fault",
  NOTEST+" A wrong 'proven' appears only for specific combinations and orders of failing solvers.",
  RUN,[("verdict of one solver process","runner/z3.rs, runner/vampire.rs (run)"),("combination of verdicts","runner/runners.rs (autorun_many)"),("round loop","runner/runners.rs (autorun)")],["process exit status, stdout, stderr","spawned solver processes and what they answered"])
p("C02","A decisive solver answer is never lost, overridden or delayed to a later round",
  "If in some round a solver ends with a decisive answer (refuted, or z3's 'sat') and no solver or I/O failure happens in that round, the run acts on it at once: no further round of that problem is started, a refutation is reported as proven with exactly that round's number as the number of tries, and 'sat' ends the run with an explicit 'disproved' error. The outcome does not depend on which solver answered first, how its output was chunked, or what the indecisive solvers did.",
  ["schedules","histories"],"every order and timing of solver answers and every thread interleaving",
  NOTEST+" With a single solver there is no race to lose.",
  RUN,[("result collection loop","runner/runners.rs (autorun_many)"),("killall after the first decisive result","runner/runners.rs (killall)")],["spawned processes per round","final report"])
p("C03","Solver and I/O failures end the run with an error, never silently",
  "If a solver cannot be launched, ends with an unexpected exit status, produces no or undecodable output, or if the problem file cannot be created, written or checked, or the solver's output or status cannot be collected, and no solver of that round gave a decisive answer, then the run ends in that round with an error: a non-zero exit status (or an error object in the JSON formats). It starts no further round and reports nothing as proven.",
  ["fault_sequences","schedules"],"every failing call, at every position, in every round, in combination with every answer of the other solver",
  NOTEST+" No test injects a failing system call or a failing solver.",
  RUN,[("error propagation out of the solver threads","runner/runners.rs (autorun_many, Err arm)"),("exit status interpretation","runner/z3.rs, runner/vampire.rs"),("temporary file creation","runner/runner.rs (build_file, run_to_tmp)")])
p("C04","Every solver started is stopped and collected; nothing else is signalled",
  "When the tool exits, reports a verdict or starts another round, every solver process it started earlier has terminated and has been waited for, whether the run succeeded, failed or panicked. Signals are sent only to solver processes the tool started and has not yet waited for, so a recycled process id is never hit. (Where the operating system refuses to collect a status, or refuses a thread while at the same time a solver's output cannot be read, a solver may be left to the system.)",
  ["schedules","fault_sequences","histories"],"every interleaving of spawning, answering, killing and waiting, including a solver that starts after another has already answered, and process-id reuse",
  NOTEST+" An orphan or a stray signal needs a second solver that is still running at the right instant.",
  RUN,[("spawn registration with the collector","runner/runners.rs (Handler)"),("kill + wait of all children, thread join","runner/runners.rs (killall, kill_shared_child)")],["process table at exit","kill/wait calls"])
p("C05","Every run terminates: no deadlock, whatever solvers print or whoever hangs",
  "Once every running solver has ended, or one solver has given a decisive answer or failed, the tool finishes that round within a bounded number of steps, even if the other solver never ends by itself, prints megabytes before ending, keeps silent, or closes its output early. No schedule leads to a deadlock or livelock.",
  ["schedules","fault_sequences","histories"],"every thread interleaving, output size and chunking, solver duration, and one hung solver",
  NOTEST+" Output larger than a pipe buffer and hung solvers are never exercised.",
  RUN,[("reading stdout to the end before waiting","runner/runner_helper.rs (exec_cmd)"),("channel hang-up protocol","runner/runners.rs (autorun_many, killall)")])
p("C06","Rounds follow the configured budget, solvers and time limit",
  "In each round every enabled and available solver is started exactly once on a fresh file, with the configured time limit and its documented options; disabled or missing solvers are never started, and with none available the run fails without starting anything. Without a decisive answer or failure the tool runs exactly the configured number of rounds (zero meaning unbounded) per problem and then fails saying it ran out of tries; it stops earlier only when the learning solver timed out and taught it nothing new.",
  ["configurations","histories","schedules"],"every option combination, number of rounds and sequence of solver answers",
  NOTEST+" All test runs use --num-of-retry 1.",
  RUN+["cli.rs","environement/environement.rs"],[("round loop","runner/runners.rs (autorun)"),("solver discovery","runner/runners.rs (TryFrom<SolverConfig>)"),("options","cli.rs")])
p("C07","A solver always reads a complete, well-formed, self-contained problem file",
  "Whenever a solver opens the file named on its command line, at any moment until it ends or the tool gives up on it, the file exists, is fully written and stays unchanged: balanced, every sort and symbol declared exactly once and applied with its declared arity and sorts, no free variables, exactly one goal, ending with the satisfiability query. This holds for every concurrent generation of the files of the other solvers and for later rounds.",
  ["schedules","fault_sequences","programs"],"every interleaving of the generating threads, start delay of the solver, short or interrupted write, name-counter state and round",
  NOTEST+" z3 alone reads one file generated by one thread.",
  ["runner/runner.rs","runner/z3.rs","runner/vampire.rs","smt/smt.rs","container/container.rs","crates/utils/src/traits.rs"],[("write, flush, then launch; file kept alive until the child is waited for","runner/runner.rs (run_to_tmp)"),("unique fresh names from a process-wide counter","container/container.rs (find_free_function_name)")],["bytes read by the simulated solver at its own time"])
p("C08","The problem posed depends only on the input and the options",
  "For a fixed input, options and round history, the logical content of every problem file (up to renaming of generated names and bound variables, and order of declarations, assertions and commutative arguments) is the same in every run: it does not depend on thread scheduling, hash seeds, memory addresses, the clock, time limits, the process id, or which other solver runs.",
  ["schedules","inputs","configurations"],"every schedule, hash seed, address-space layout and solver set",
  "Tests never compare two runs; a divergence needs a particular seed, layout or interleaving.",
  ["problem/problem/mod.rs","problem/crypto_assumptions","container/container.rs","formula/function/mod.rs","crates/utils/src/string_ref.rs"],[("generation from a shared immutable problem","problem/problem/mod.rs (generate)"),("interned objects compared by address","container")])
p("C09","All solvers of a round are posed the same logical problem",
  "The files given to the different solvers in one round state the same problem: the same declarations, the same assertions and the same goal, differing only in the dialect each solver needs (negated goal and theory assertion keywords). Both equal what the to-file mode writes for the same input in the first round.",
  ["schedules","programs"],"every interleaving of the concurrent generations and every input",
  NOTEST+" Files are never compared.",
  ["runner/z3.rs","runner/vampire.rs","smt/smt.rs","lib.rs"],[("per-solver flags on a clone of the environment","runner/z3.rs, runner/vampire.rs (write)")])
p("C10","Learning from a timed-out solver only ever adds justified material",
  "After a round in which vampire timed out, the next round's problem keeps the same declarations and goal and every assertion about anything but the learned cryptographic instances, never drops an instance already considered (nor is one dropped when the tool moves on to the next lemma or the query), and what is added depends only on the set of well-formed relevant literals that solver printed, not on output chunking, line order, repetition, unrelated or malformed lines, or the other solver. If nothing new was printed the run stops with a 'no new instances' failure instead of repeating.",
  ["histories","schedules","fault_sequences"],"every multi-round history of solver outputs",
  NOTEST+" No test reaches a second round.",
  ["runner/searcher.rs","runner/tptp.rs","runner/vampire.rs","problem/problem/mod.rs","problem/crypto_assumptions"],[("instance extraction","runner/searcher.rs"),("monotone extra instances","problem/problem/mod.rs (extend_extra_instances)"),("no-progress detection","runner/vampire.rs (discover)")])
p("C11","Lemmas are proved in order and never assumed before they are proved",
  "With lemmas enabled the tool proves the lemmas one after the other in file order and the query last; the file for a lemma or the query assumes exactly the earlier lemmas and never itself or a later one, and later problems are only started after every earlier one was refuted. A failing lemma ends the run with an error, and success reports one result per lemma plus the query, in order.",
  ["histories","schedules","inputs"],"every sequence of solver answers over all lemmas, with retries and learning in between",
  NOTEST+" One test protocol has lemmas, and all of them are proved at once.",
  ["problem/problem/pbl_iterator.rs","lib.rs"],[("lemma queue","problem/problem/pbl_iterator.rs (next)"),("fail-fast collection","lib.rs (auto_run)")])
p("C12","to-file reports success only when every output file is complete",
  "If the to-file mode exits successfully then every file it was asked for (one, or one per lemma plus the query) exists at the requested location and holds exactly the complete problem, whatever was there before and however the writes were split, interrupted or retried. Any failure to create a directory or file or to write a byte makes it exit with an error.",
  ["fault_sequences","inputs","configurations"],"every failing, short or interrupted file-system call at every position, and every pre-existing file-system state",
  "No test runs to-file mode at all, nor with a failing disk.",
  ["lib.rs","cli.rs","crates/utils/src/traits.rs"],[("write + flush with error propagation","lib.rs (save_to_file), crates/utils/src/traits.rs (write_to_io)"),("directory creation","lib.rs (run_to_dir, run_to_file)")])
p("C13","Temporary problem files are removed, debug files are kept",
  "When the tool exits, in success or failure, no temporary problem file it created is left behind, except in a requested debug directory: there, exactly the files handed to the solvers are kept, one per launch, unmodified, and nothing is written elsewhere. Concurrent solvers and successive rounds never share or overwrite each other's files.",
  ["schedules","fault_sequences","configurations","histories"],"every exit path, round history, name collision and fault",
  "The test script always passes a debug directory and never looks into it or at what is left in the temporary directory.",
  ["runner/runner.rs"],[("temporary file guard","runner/runner.rs (build_file)")])
p("C14","The input is read whole or the run fails before doing anything",
  "Whether the input comes from a file or from standard input, and however the reads are chunked or interrupted, the tool works on exactly the bytes supplied. If the input cannot be opened, read to its end or decoded, the tool exits with an error without starting a solver or writing an output file.",
  ["fault_sequences","inputs"],"every chunking, interruption and failure position of the input stream",
  "Tests only read small regular files in one piece.",
  ["main.rs"],[("read_to_string","main.rs")])
p("C15","What the user sees matches what happened, in every output format",
  "For every output format and interleaving the report matches the outcome of the run: success is exit status 0 with one result per problem carrying its true number of tries, failure is a non-zero exit status (text and quiet formats) or an error object (JSON formats) naming the cause. The JSON formats print exactly one valid JSON value on standard output, quiet prints nothing, and a failing standard output or error stream never turns a failure into a success. (A run to which the operating system refuses a thread or memory may instead end in a panic with a non-zero exit status.)",
  ["configurations","histories","fault_sequences"],"every output format, run outcome and failing or short write on the output streams",
  "Tests look only at the exit status of successful runs in the default format.",
  ["main.rs","return_value.rs","runner/runners.rs"],[("output formatting","main.rs"),("result values","return_value.rs")])
p("C16","Hostile or damaged solver output cannot crash the run or steer its verdict",
  "Whatever bytes a solver prints (binary garbage, truncated or duplicated clauses, unknown symbols, wrong arities, odd line endings, huge or empty output), the tool neither panics nor aborts on it: it continues or ends with an ordinary error, and the verdict depends only on the solver's exit status and, for z3, on its last line. Words such as 'unsat' elsewhere in the output have no effect.",
  ["inputs","fault_sequences","histories"],"every byte string printed by a solver, with every exit status and delivery",
  NOTEST+" The one unit test on solver output checks that a regular expression matches five lines.",
  ["runner/searcher.rs","runner/tptp.rs","runner/z3.rs","runner/vampire.rs","runner/runner_helper.rs"],[("output parsing","runner/searcher.rs, runner/tptp.rs"),("last line interpretation","runner/z3.rs (run)")])
p("C17","A Squirrel call with several problems treats each one separately",
  "For a Squirrel JSON call the tool runs every problem it contains, in order, each with the guarantees of a single run, and reports one result per problem; the first failure ends the run with an error. In to-file mode each problem's output goes to its own numbered location directly below the requested one, no matter how many problems there are.",
  ["histories","inputs","fault_sequences"],"every number of problems, sequence of solver answers and fault",
  "The two Squirrel tests only parse a dump; nothing is ever run from one.",
  ["squirrel/mod.rs","return_value.rs"],[("problem loop","squirrel/mod.rs (run_from_json)")])
p("C18","Killed or earlier runs never affect a later run",
  "However many earlier runs in the same working, temporary, debug and output directories completed or were killed at an arbitrary point, and whatever complete or torn files they left there (even under the names this run would choose), a run starts the same rounds with the same problems, reports the same outcome and writes the same output as in fresh directories: existing output files are replaced as a whole, nothing is read from leftovers, and leftover or foreign files that are not its outputs are neither changed nor removed.",
  ["crash_points","histories","fault_sequences"],"every point at which an earlier run is killed, every sequence of earlier runs, every torn leftover and temporary-name collision",
  "No test kills the tool, runs it twice in one directory or finds an existing file.",
  ["runner/runner.rs","lib.rs","squirrel/mod.rs","runner/runner_helper.rs"],[("temporary and debug file creation","runner/runner.rs (build_file)"),("output file creation","lib.rs")])
p("C19","Logging never changes what the tool does",
  "For every log level or filter in RUST_LOG, and whether the log stream is fast, short, interrupted or failing, a run starts the same rounds with the same problems, reaches the same verdict and number of tries, exits with the same status, prints the same report on standard output and leaves the same files as without logging (at trace level, copies of solver output named solver_output_* may be kept in the temporary directory). In the text format, whose report itself goes to standard error, this holds as long as that stream can be written.",
  ["configurations","fault_sequences","schedules"],"every log level and filter, every failure of the log stream, every interleaving of logging threads",
  "Tests never enable logging.",
  ["lib.rs","runner/runner_helper.rs","smt/smt/display.rs","subterm/mod.rs","formula/function/function.rs"],[("logger set-up","lib.rs (init_logger)"),("trace-only code paths","runner/runner_helper.rs (save_stdout)")])
NA="The unit tests and the nine example protocols sample a handful of inputs."
p("C40","The cryptographic axioms instantiated for a protocol are sound",
  "Every assertion generated for a declared cryptographic assumption (EUF-CMA, UF-CMA, INT-CTXT, nonce freshness, memory cells, unfolding) holds in every computational model of that assumption, so a refutation implies that the security property holds.",
  ["programs","inputs"],"every protocol",NA,["problem/crypto_assumptions","subterm"],[("axiom generation","problem/crypto_assumptions")])
p("C41","Subterm preprocessing neither misses nor invents occurrences",
  "The candidate occurrences used to instantiate cryptographic assumptions over-approximate exactly the occurrences reachable in the protocol, so no required guard is dropped.",
  ["programs"],"every protocol",NA,["subterm","problem/crypto_assumptions"],[("subterm search","subterm")])
p("C42","Ill-formed or ill-typed inputs are rejected, well-typed ones accepted",
  "The parser accepts exactly the well-formed, well-sorted protocol descriptions and reports the location of the first error otherwise.",
  ["inputs"],"every input text",NA,["parser"],[("parser and type checker","parser")])
p("C43","Squirrel problems are translated faithfully",
  "The problem built from a Squirrel JSON dump is equivalent to the goal in the dump; names are sanitised injectively.",
  ["inputs"],"every dump",NA,["squirrel"],[("conversion","squirrel/converters")])
p("C44","Substitution, renaming and unification on formulas are capture-avoiding",
  "Operations on formulas preserve meaning for every formula, in particular under binders.",
  ["inputs"],"every formula",NA,["formula","crates/logic_formula"],[("substitution and unification","formula")])
p("C45","The indistinguishability prototype only reports justified equivalences",
  "The equality-saturation prototype prints 'success!' and exits 0 only if the two protocol terms are equivalent under sound rewriting rules.",
  ["programs"],"every pair of protocol terms",NA,["crates/indistinguishability"],[("rewriting rules and search loop","crates/indistinguishability/src/main.rs")])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
