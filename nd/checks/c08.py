"""C08: parse errors carry a valid span."""
from .. import ir, lib, parsing
from ..dom import *
from ..report import Report

OUT = ("G", "out", 0)

def run():
    rep = Report("C08", "other", "abstract interpretation of the parser with span facts, and of the error's formatting",
        "The parser of one value is interpreted on a symbolic input at any position, nested values being replaced by a contract that the same run establishes, and the function around it on any input. Every error that comes out must carry a span that starts no later than it ends "
        "and ends within the input. The error's formatting is interpreted: it must emit the kind, the start and the end of that span, and span() and kind() must return what is stored.", ["inputs are at most 2^40 bytes long"])
    r = parsing.analyse(rep, ("span",))
    if r is not None:
        kinds = {k for x in r[2] for (rule, k) in x["obl"] if rule == "span"}
        rep.counts["ends of spans checked, by kind"] = len(kinds)
        if not kinds:
            rep.undecided("span", "no error comes out of the parser")
    p = ir.load("core")
    A = lib.api(p)
    keys = {m: A.get(("Error", tr, m)) for tr, m in ((None, "span"), (None, "kind"), ("Display", "fmt"))}
    rep.floor("anchors", "methods of an error", sum(1 for k in keys.values() if k), 3)
    if all(keys.values()):
        shown(rep, p, keys)
    return rep

def deref(I, st, v):
    for _ in range(4):
        if v[0] == "ref":
            v = I.read(st, v[1], v[2])
        elif v[0] == "cref":
            v = v[1]
        else:
            break
    return I.expand(st, v) if v[0] == "sym" and v[1][:1] == ("a0",) else v

def stored(I, st, p, want):
    """The fields of the error a method was called on: {span: (a, b), kind: value}."""
    c = ("P", ("a0", "*"), want)
    out = {}
    v = I.read(st, c)
    v = I.expand(st, v) if v[0] == "sym" else v
    if v[0] != "adt":
        return out
    t = p.types[want]
    for (n, ft), x in zip(t["v"][0]["f"], v[3]):
        if "Range" in p.types[ft].get("path", ""):
            y = I.expand(st, x) if x[0] == "sym" else x
            ab = tuple(I.expand(st, z) if z[0] == "sym" else z for z in y[3][:2])
            if len(ab) == 2 and all(is_int(z) for z in ab):
                out["span"] = ab
        elif p.types[ft].get("path", "").endswith("ErrorKind"):
            out["kind"] = x
    return out

def shown(rep, p, keys):
    R = lib.Runner(p)
    def err_ty(key):
        return p.peel(p.fns[key]["locals"][1])
    I, outs = R.run(keys["span"])
    judge(rep, I, outs, "span() returns the span", lambda st, v: same_span(I, st, p, deref(I, st, v), err_ty(keys["span"])))
    I, outs = R.run(keys["kind"])
    judge(rep, I, outs, "kind() returns the kind", lambda st, v: field_of(I, st, v, "kind"))
    def setup(I, st, args):
        st.mem[OUT] = ("tup", ())
        I.roots = I.roots + (OUT,)
        I.on_emit = emit
    I, outs = R.run(keys["fmt"], setup=setup)
    judge(rep, I, outs, "formatting shows kind and span", lambda st, v: text_ok(I, st, p, err_ty(keys["fmt"])))

def emit(I, st, text, lossy, x):
    v = st.mem.get(OUT)
    if v is not None and v[0] == "tup":
        st.mem[OUT] = ("tup", v[1] + (text,))
    return None

def judge(rep, I, outs, what, f):
    if I.failed or not outs:
        rep.undecided("shown", what + ": " + str(I.failed)); return
    for st, v in outs:
        rep.count("outcomes analysed")
        ok = f(st, v) if not st.taint else None
        lib.verdict(rep, "shown", ok, what, "not so: " + what, what)

def same_span(I, st, p, v, ti):
    s = stored(I, st, p, ti).get("span")
    if s is None or v[0] != "adt" or len(v[3]) < 2 or not all(is_int(x) for x in v[3][:2]):
        return None
    return bool(st.F.eq(v[3][0], s[0])) and bool(st.F.eq(v[3][1], s[1]))

def names(v):
    """Symbolic places mentioned in a value."""
    if type(v) is tuple:
        if len(v) == 3 and v[0] == "sym" and type(v[1]) is tuple:
            yield v[1]
        for x in v:
            yield from names(x)

def field_of(I, st, v, name):
    """Is it (a reference to) that field of the error?"""
    if v[0] == "ref" and v[1][0] == "P":
        path = v[1][1]
        y = I.read(st, v[1], v[2])
        n = list(names(y)) or [path]
        return any(q[:2] == ("a0", "*") and q[-1] == name for q in n)
    if v[0] == "ref":
        n = list(names(I.read(st, v[1], v[2])))
        return any(q[:2] == ("a0", "*") and q[-1] == name for q in n)
    n = list(names(v))
    return any(q[:2] == ("a0", "*") and q[-1] == name for q in n) if n else None

def text_ok(I, st, p, ti):
    """The text emitted: a kind, a start and an end, in this order, each once."""
    o = st.mem.get(OUT)
    if o is None or o[0] != "tup":
        return None
    s = stored(I, st, p, ti).get("span")
    if s is None:
        return None
    got = []
    for t in o[1]:
        if t[0] != "bytes":
            return None
        for q in t[1]:
            if q[0] == "sub" and type(q[1]) is tuple and q[1][:1] == ("display",):
                x = q[1][1]
                if is_int(x):
                    got.append("start" if st.F.eq(x, s[0]) and not st.F.eq(x, s[1]) else "end" if st.F.eq(x, s[1]) else "number")
                else:
                    got.append("kind" if any(n[-1] == "kind" for n in names(x)) else "?")
            elif q[0] == "lit":
                pass
            else:
                got.append("?")
    if "?" in got:
        return None
    return got == ["kind", "start", "end"]
