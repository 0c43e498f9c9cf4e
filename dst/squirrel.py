"""Squirrel calls: splits a call whose query is a `diff` into the calls of its projections."""
import json
def singles(text):
    d = json.loads(text); q = d["context"]["query"]
    ts = [t["term"] for t in q["Diff"]["terms"]] if "Diff" in q else [q]
    out = []
    for t in ts:
        e = json.loads(text); e["context"]["query"] = t
        out.append(json.dumps(e, separators=(",", ":"), ensure_ascii=False))
    return out
