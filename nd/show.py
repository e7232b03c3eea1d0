"""Debug printing of abstract values."""
from .dom import *

def term(t):
    r = []
    for s, c in t[2]:
        n = "%s%d" % (KIND[s], s)
        r.append(n if c == 1 else "%d*%s" % (c, n))
    if t[1] or not r:
        r.append(str(t[1]))
    return "+".join(r)

def val(v, I=None, d=0):
    if type(v) is not tuple or not v:
        return repr(v)
    k = v[0]
    if is_int(v): return term(v)
    if k == "b": return str(v[1])
    if d > 9: return "…"
    f = lambda x: val(x, I, d + 1)
    if k == "adt":
        n = str(v[1]) if I is None else I.p.types[v[1]]["path"].split("::")[-1] if "path" in I.p.types[v[1]] else I.p.types[v[1]]["s"]
        if I is not None and len(I.p.types[v[1]].get("v") or []) > 1:
            n = I.p.types[v[1]]["v"][v[2]]["name"]
        return "%s(%s)" % (n, ", ".join(f(x) for x in v[3]))
    if k in ("tup", "arr"): return k + "(" + ", ".join(f(x) for x in v[1]) + ")"
    if k == "sym": return "?" + f(v[1])
    if k == "bytes": return "'" + " ".join(piece(p, I) for p in v[1]) + "'"
    if k == "list": return "[" + " ".join(piece(p, I) for p in v[1]) + "]"
    if k == "ref": return "&" + f(v[1]) + (str(v[2]) if v[2] else "")
    return "(" + " ".join(f(x) if type(x) is tuple else str(x) for x in v) + ")"

def piece(p, I=None):
    if p[0] == "lit": return repr(p[1])[1:]
    if p[0] == "sub": return "%s[%s..%s]" % (val(p[1], I), term(p[2]), term(p[3]))
    return "<" + p[0] + " " + " ".join(val(x, I) if type(x) is tuple else str(x) for x in p[1:]) + ">"

def facts(F):
    out = []
    for s, i in F.idx.items():
        if s:
            lo, hi = F._symb(s)
            out.append("%s%d∈[%s,%s]" % (KIND[s], s, lo, hi))
    return " ".join(out)
