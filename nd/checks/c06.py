"""C06: parsing terminates on every input."""
from .. import parsing
from ..report import Report

def run():
    rep = Report("C06", "other", "abstract interpretation of the parser with ranking facts for every loop",
        "The parser of one value is interpreted on a symbolic input at any position, nested values being replaced by a contract that the same run establishes, and the function around it on any input. Every loop must have a quantity that strictly moves in one direction within "
        "a bound on each way round: the position up to the end of the input, the rest of an iterator, or a difference of two lengths. A nested value must be parsed at a later position than the enclosing one and may not move back; "
        "no cycle of calls may avoid that step.", ["loops inside the standard library and dependencies end"])
    r = parsing.analyse(rep, ("progress",))
    if r is None:
        return rep
    p, R, parts = r
    loops = {}
    for x in parts:
        for (fn, bb), d in x["rank"].items():
            e = loops.setdefault((fn, bb), {"ok": 0, "bad": 0, "taint": 0, "why": ""})
            for k in ("ok", "bad", "taint"):
                e[k] += d[k]
            e["why"] = e["why"] or d["why"]
    per = {}
    for (fn, bb), d in sorted(loops.items()):
        f = p.fns.get(fn, {})
        path = f.get("path", fn)
        per[path] = per.get(path, 0) + 1
        rep.count("loops analysed")
        if d["bad"]:
            rep.bad("loops", path, "no quantity moves towards a bound on every way round a loop of %s (%s)" % (path, d["why"]))
        elif d["taint"]:
            rep.undecided("loops", path)
        else:
            rep.ok("loops", "loop %d of %s" % (per[path], path))
    for k in R.more:
        rep.undecided("recursion", "calls of %s form a cycle that does not parse a nested value" % p.fns[k]["path"])
    if not R.more:
        rep.ok("recursion", "every cycle of calls goes through %s" % p.fns[R.entry]["path"])
    return rep
