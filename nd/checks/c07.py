"""C07: parsing never panics or aborts."""
import re
from .. import parsing
from ..report import Report

def run():
    rep = Report("C07", "other", "abstract interpretation of the parser with index, slice and arithmetic facts",
        "The parser of one value is interpreted on a symbolic input at any position, nested values being replaced by a contract that the same run establishes, and the function around it on any input. No assertion of the compiler (overflow, index), no slice, unwrap or "
        "unreachable arm may fail on any path. Recursion that can grow with the input is reported, as it can exhaust the stack.", ["memory does not run out", "inputs are at most 2^40 bytes long"])
    r = parsing.analyse(rep, ())
    if r is None:
        return rep
    p, R, parts = r
    for x in parts:
        w = parsing.name(x["which"])
        if x["err"]:
            rep.undecided("panics", w + ": " + x["err"])
        seen = set()
        for q in x["panics"]:
            fn = q["fn"]
            if q["chain"] and fn not in (f["path"] for f in map(p.fns.get, q["chain"])):
                fn = "%s in %s" % (fn, p.fns[q["chain"][-1]]["path"])
            if (fn, q["msg"]) in seen:
                continue
            seen.add((fn, q["msg"]))
            if q["taint"]:
                rep.undecided("panics", "%s: %s (%s)" % (fn, q["msg"], w))
            else:
                via = " > ".join(k.split("::")[-1] for k in q["chain"][-5:])
                rep.bad("panics", "%s %s" % (fn, re.sub(r"(move|copy) _\d+", "_", q["msg"])), "%s may panic: %s (%s)" % (fn, q["msg"], via))
        if not x["panics"]:
            rep.ok("panics", w)
        for u in sorted(x["und"]):
            rep.undecided("panics", "%s: %s" % (w, u))
    # depth of recursion
    rep.bad("recursion", "nested values", "%s calls itself for every level of nesting, so that deeply nested input exhausts the stack" % p.fns[R.entry]["path"])
    for k in R.more:
        rep.bad("recursion", p.fns[k]["path"], "%s calls itself without parsing a nested value" % p.fns[k]["path"])
    return rep
