"""What the two serde faces of a value do: calls of the foreign serializer or visitor are events of a small automaton that travels with the
abstract state; every payload handed over must be the content of the value asked for."""
from . import ir, lib
from .dom import *

CELL = ("G", "serde")
INTS = ["u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128", "f32", "f64"]

def mon(pc, k=C(0), who=None):
    return ("obj", "serde", pc, k, who)

def get(st):
    return st.mem.get(CELL)

def put(st, *a):
    st.mem[CELL] = mon(*a)

def content_field(p, R):
    """Field of a string in which its content (and not its source text) is stored: the one the accessors read. Text of keys likewise."""
    api = lib.api(p)
    key = api.get(("Value", None, "as_bstr"))
    if key is None:
        return None
    I, outs = R.run(key, views=lib.self_views(None))
    for st, v in outs:
        d = lib.describe(I, st, v)
        if d and d[0] == "text":
            ps = lib.norm_text(I, st, d[1])
            if len(ps) == 1 and ps[0][0] == "sub":
                return ps[0][1][-1]
    return None

def hints(p, R):
    """Recorded type -> numeric type whose setter records it."""
    api = lib.api(p)
    out = {}
    for t in INTS:
        key = api.get(("ValueMut", None, "set_" + t))
        if key is None:
            continue
        I, outs = R.run(key, views=lib.self_views(None))
        for st, v in outs:
            for e in lib.entries(I, st):
                if not e.gone and e.kind() == "Number":
                    h = e.f("hint")
                    if h is not None and h[0] == "adt":
                        out.setdefault(I.variant(h), set()).add(t)
    return out

def number(I, st, v, idx, t, hs):
    """Is v the number stored in entry idx, in the form of type t? (ok, why)"""
    v = I.models.deref(st, v)
    if v[0] == "sym":
        v = I.expand(st, v)
    if v[0] != "obj" or v[1] != "parsed":
        return (None if v[0] in ("top", "any", "sym") else False), "a number that was not read from the text of the value"
    if v[3] != t:
        return False, "the text read as %s" % v[3]
    base = ("E", idx, "raw", "Number", "0", "string")
    if not whole_of(I, st, v[4], base):
        return False, "a number that is not read from the complete text of the value"
    h = hint(I, st, idx)
    if h is None:
        return False, "a number of type %s without regard to the recorded type" % t
    rec = hs.get(h)
    if not rec:
        return None, "recorded type " + str(h)
    if t in rec:
        return True, h
    def failed(ty):
        return any(type(k) is tuple and k[0] == "parses" and k[2] == ty and x is False and whole_of(I, st, k[3], base) for k, x in st.F.eqs.items())
    if not any(failed(x) for x in rec):
        return False, "%s for a number recorded as %s which may fit that type" % (t, "/".join(sorted(rec)))
    if t in ("f32", "f64") and not (failed("u128") and failed("i128")):
        return False, "%s for a number which may be a whole number" % t
    return True, h + " in other form"

def hint(I, st, idx):
    c = ("E", idx)
    I.read(st, c)
    e = lib.Entry(I, st, c)
    h = e.f("hint")
    if h is not None and h[0] == "adt":
        return I.variant(h)
    if h is not None and h[0] == "sym":
        i = st.F.var.get(h[1])
        if i is not None:
            return I.p.types[h[2]]["v"][i]["name"] if isinstance(i, int) else i
    return None

def whole_of(I, st, t, base):
    if t is None or t[0] != "bytes":
        return False
    ps = lib.norm_text(I, st, t)
    if not ps:
        return st.F.eq(I.length(st, base), C(0))
    return len(ps) == 1 and ps[0][0] == "sub" and ps[0][1] == base and st.F.eq(ps[0][2], C(0)) and st.F.eq(ps[0][3], I.length(st, base))

def stored_text(I, st, v, base):
    """Is v the complete stored text? None if not known."""
    t = I.models.as_text(st, v)
    if t is None:
        return None
    if whole_of(I, st, t, base):
        return True
    ps = lib.norm_text(I, st, t)
    return False if all(x[0] in ("sub", "lit", "rep", "lossy") for x in ps) else None

def element(I, st, v, owner):
    """Position k if v is a view of the value of the k-th entry of the list `owner` (for a mapping) or of the k-th element."""
    d = lib.describe(I, st, v)
    if not d or d[0] != "view" or d[2] is None:
        return None
    nd = lib.node(I, d[2])
    if nd and nd[0] == "value" and nd[2] and nd[2][0] == "item" and nd[2][2] == owner:
        return nd[2][3]
    o = I.origin.get(mono(d[2]) or -1)
    if nd and nd[0] == "view" or o is not None and o[0] != "E" and not (o[0] == "len"):
        return False
    return None

def key_place(I, st, v, owner):
    """Position k if v is the complete text of the key of the k-th entry of `owner`. False if it is another text."""
    t = I.models.as_text(st, v)
    if t is None:
        return None
    ps = lib.norm_text(I, st, t)
    if len(ps) == 1 and ps[0][0] == "sub" and ps[0][1][:1] == ("E",):
        b = ps[0][1]
        if "key" in b and st.F.eq(ps[0][2], C(0)) and st.F.eq(ps[0][3], I.length(st, b)):
            nd = lib.node(I, addc(b[1], 1))
            if nd and nd[0] == "item" and nd[2] == owner:
                return (nd[3], b[-1])
            return None
        return False
    return False if all(x[0] in ("sub", "lit", "rep", "lossy") for x in ps) else None

def utf8_failed(st):
    return any(type(q) is tuple and q[0] == "utf8" and r is False for q, r in st.F.eqs.items())

def parse_failed(st, ty):
    return any(type(k) is tuple and k[0] == "parses" and k[2] == ty and x is False for k, x in st.F.eqs.items())

def flag(I, st, d, x):
    """Is the described value the truth value stored in entry x?"""
    if not d or d[0] not in ("int", "bool"):
        return None
    if d[0] == "int" and mono(d[1]):
        o = I.origin.get(mono(d[1]), ())
        return o[:5] == ("E", x, "raw", "Boolean", "0") and d[1][1] == 0
    return False if d[0] == "int" else None

def find_it(I, st, v):
    """The iterator inside a structure."""
    v = I.models.deref(st, v)
    if v[0] == "sym":
        v = I.expand(st, v)
    if v[0] == "obj" and v[1] == "it":
        return v
    if v[0] == "adt":
        for x in v[3]:
            r = find_it(I, st, x) if x[0] in ("adt", "obj") else None
            if r is not None:
                return r
    return None
