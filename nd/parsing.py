"""What the checks of parsing share: one interpretation of the parser, its obligations turned into reports."""
from . import ir, tile

CLASS_NAMES = ["values that start with a dash", "double-quoted strings", "single-quoted strings", "inline sequences", "inline mappings", "block scalars", "other values", "values at the end of the input"]

def name(w):
    return CLASS_NAMES[w] if isinstance(w, int) else "document"

def analyse(rep, rules):
    """Run the parser; report obligations of the given rules. Returns (program, roles, parts) or None."""
    p = ir.load("core")
    n = sum(1 for f in p.fns.values() if f["path"] == tile.PARSE)
    rep.floor("anchors", "function that parses a document", n, 1)
    R, parts = tile.run_all(p)
    if isinstance(parts, str):
        rep.undecided("anchors", parts)
        return None
    fns = set()
    for x in parts:
        w = name(x["which"])
        rep.count("outcomes analysed", x["outs"])
        rep.count("nested values", x["calls"])
        fns |= set(x["fns"])
        if x["err"]:
            for r in rules:
                rep.undecided(r, w + ": " + x["err"])
        for (rule, key), (ok, bad, unk, text) in sorted(x["obl"].items()):
            if rule not in rules:
                continue
            rep.count("obligations met on a path", ok)
            if bad:
                rep.bad(rule, key, text)
            elif unk:
                rep.undecided(rule, "%s (%s)" % (key, w))
            else:
                rep.ok(rule, "%s (%s)" % (key, w))
    rep.counts["functions analysed"] = len(fns)
    return p, R, parts
