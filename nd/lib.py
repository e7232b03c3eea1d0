"""What the property checks share: the public methods, runs over symbolic documents, and questions about results."""
import re
from . import ir
from .dom import *
from .interp import Budget, St
from .tree import Tree

def last(path):
    path = re.sub(r"<.*", "", path)
    return path.split("::")[-1]

def api(p):
    """(type name, trait name or None, method) -> body key, over the crate's own methods outside the raw tree."""
    if hasattr(p, "_api"):
        return p._api
    out = {}
    for it in p.items:
        if it["kind"] != "AssocFn" or not it.get("impl"):
            continue
        imp = it["impl"].lstrip("&").replace("mut ", "")
        if "raw::" in imp or "::" not in imp:
            continue
        key = it["path"]
        f = p.fns.get(key)
        if f is None or f.get("failed"):
            continue
        tr = last(it["itrait"]) if it.get("itrait") else None
        ref = "&" if it["impl"].startswith("&") else ""
        out.setdefault((ref + last(imp), tr, key.split("::")[-1]), key)
    p._api = out
    return out

def item_of(p, key):
    return p.item.get(key)

KINDS = ("Mapping", "Sequence")

class Runner:
    """Runs methods on a symbolic document and answers questions about the results."""
    def __init__(self, p, limit=60, **kw):
        self.p, self.limit, self.kw = p, limit, kw

    def run(self, key, views=None, args=None, self_kind=None, setup=None, io_err=False):
        I = Tree(self.p, limit_s=self.limit)
        I.io_err = io_err
        I.peel = self.kw.get("peel", False)
        if "merge" in self.kw:
            I.merge_returns = self.kw["merge"]
        I.views.update(views or {})
        f = self.p.fns[key]
        if args is None:
            args = self.args(key)
        st = I.start()
        if setup is not None:
            setup(I, st, args)
        I.failed = None
        try:
            outs = I.run_fn(key, args, st)
        except Budget as e:
            I.failed = str(e)
            outs = []
        except RecursionError:
            I.failed = "analysis depth"
            outs = []
        return I, outs

    def args(self, key):
        f = self.p.fns[key]
        return [("sym", ("a%d" % i,), f["locals"][i + 1]) for i in range(f["n_args"])]

def self_views(kind):
    """Names of the id held by a view passed as self, by value or by reference."""
    s = None if kind is None else {kind}
    return {("a0", "id", "0"): s, ("a0", "*", "id", "0"): s}

# ---- questions about values
def node(I, idt):
    """Where an id comes from: ('view', name), ('item', kind, list owner, k), ('value', node of the item), ('new',), None."""
    idx = addc(idt, -1)
    s = mono(idx)
    if not s or idx[1] not in (0, -1):
        return None
    o = I.origin.get(s)
    if o is None:
        return ("new", s)
    r = I.role(idx)
    if r is None:
        return None
    if r[0] == "value":
        # owner is the index term of the item
        return ("value", r[1], node(I, addc(r[2], 1)))
    e = elem(o)
    if e is not None:
        return ("item", r[1] if r[0] == "item" else None, e[0], e[1])
    if r[0] == "view":
        return ("view", o)
    return (r[0], o)

def elem(o):
    n = len(o)
    while n and not (type(o[n - 1]) is tuple and len(o[n - 1]) == 2 and o[n - 1][0] == "at"):
        n -= 1
    return (o[:n - 1], o[n - 1][1]) if n else None

def field(I, st, v, name):
    return I._field(st, v, name)

def whole(I, st, v, want):
    """Is the text v the complete initial text whose name satisfies `want`?"""
    t = I.models.as_text(st, v)
    if t is None or len(t[1]) != 1 or t[1][0][0] != "sub":
        return False
    p = t[1][0]
    if not want(p[1]) or not st.F.eq(p[2], C(0)):
        return False
    return st.F.eq(p[3], I.length(st, p[1]))

def opt(I, st, v):
    """None | value of an Option; 'bad' if it is neither."""
    v = I.models.deref(st, v)
    if v[0] == "sym":
        v = I.expand(st, v)
    if v[0] != "adt":
        return "bad"
    n = I.variant(v)
    if n == "None":
        return None
    if n == "Some":
        return I.models.deref(st, v[3][0]) if v[3][0][0] != "sym" else I.expand(st, v[3][0])
    return "bad"

def rigid(t):
    return syms_of(t, set()) <= RIGID | {0}

def eq(st, a, b):
    """True: equal. False: not (provably, or two different exact expressions of the initial state). None: unknown."""
    if st.F.eq(a, b):
        return True
    lo, hi = st.F.diff(a, b)
    if lo > 0 or hi < 0:
        return False
    return False if rigid(a) and rigid(b) else None

def le(st, a, b):
    if st.F.le(a, b):
        return True
    lo, hi = st.F.diff(a, b)
    if lo > 0:
        return False
    return False if rigid(a) and rigid(b) else None

def both(*xs):
    """Conjunction of three-valued answers."""
    if any(x is False for x in xs):
        return False
    return None if any(x is None for x in xs) else True

def verdict(rep, rule, ok, key, text, sample=None):
    if ok is None:
        rep.undecided(rule, key)
    else:
        rep.check(rule, ok, key, text, sample)
    return ok

# ---- what an operation did to the document
def same(I, st, a, b):
    """Are two values equal? (True / False when the difference is syntactic in the kind of value, None unknown)"""
    if a == b:
        return True
    if a[0] == "sym":
        a = I.expand(st, a)
    if b[0] == "sym":
        b = I.expand(st, b)
    if a == b:
        return True
    if a[0] == "sym" or b[0] == "sym":
        return False if a[0] == b[0] == "sym" else None
    if is_int(a) and is_int(b):
        return eq(st, a, b)
    if a[0] == "adt" and b[0] == "adt":
        if a[2] != b[2] or len(a[3]) != len(b[3]):
            return False
        return both(*[same(I, st, x, y) for x, y in zip(a[3], b[3])])
    if a[0] in ("tup", "arr") and a[0] == b[0] and len(a[1]) == len(b[1]):
        return both(*[same(I, st, x, y) for x, y in zip(a[1], b[1])])
    if a[0] == "hash" and b[0] == "hash":
        return same_text(I, st, a[1], b[1])
    if a[0] == "bytes" and b[0] == "bytes":
        return same_text(I, st, a, b)
    if a[0] == "list" and b[0] == "list":
        return same_list(I, st, a, b)
    if a[0] == "top" or b[0] == "top":
        return None
    return False if a[0] != b[0] else None

def norm_text(I, st, t):
    """Texts as a tuple of pieces with empty pieces removed and neighbours joined."""
    out = []
    for p in t[1]:
        n = plen(p)
        if n is not None and st.F.eq(n, C(0)):
            continue
        if out and p[0] == "sub" and out[-1][0] == "sub" and out[-1][1] == p[1] and st.F.eq(out[-1][3], p[2]):
            out[-1] = ("sub", p[1], out[-1][2], p[3]); continue
        if out and p[0] == "rep" and out[-1][0] == "rep" and p[1] == out[-1][1]:
            out[-1] = ("rep", p[1], add(out[-1][2], p[2])); continue
        if p[0] == "lit" and len(set(p[1])) == 1 and out and out[-1][0] == "rep" and out[-1][1] == C(p[1][0]):
            out[-1] = ("rep", out[-1][1], addc(out[-1][2], len(p[1]))); continue
        if out and p[0] == "lit" and out[-1][0] == "lit":
            out[-1] = ("lit", out[-1][1] + p[1]); continue
        out.append(p)
    return tuple(out)

def same_text(I, st, a, b):
    A, B = norm_text(I, st, a), norm_text(I, st, b)
    if A == B:
        return True
    if any(p[0] not in ("lit", "sub", "rep", "byte") for p in A + B):
        return None
    if len(A) == len(B) and all(x[0] == y[0] for x, y in zip(A, B)):
        r = []
        for x, y in zip(A, B):
            if x[0] == "lit":
                r.append(x == y)
            elif x[0] == "sub":
                r.append(both(x[1] == y[1] or (None if not rigid(x[1]) or not rigid(y[1]) else False), eq(st, x[2], y[2]), eq(st, x[3], y[3])))
            elif x[0] == "rep":
                r.append(both(same(I, st, x[1], y[1]), eq(st, x[2], y[2])))
            else:
                r.append(same(I, st, x[1], y[1]))
        return both(*r)
    for P in (A, B):
        # the exact shape of one of them is not settled
        if any(p[0] == "sub" and not (rigid(p[2]) and rigid(p[3]) and rigid(p[1])) for p in P):
            return None
    return False

def same_list(I, st, a, b):
    A, B = I.models.lnorm(st, a)[1], I.models.lnorm(st, b)[1]
    if A == B:
        return True
    if any(p[0] == "seg" for p in A + B):
        return None
    if len(A) == len(B) and all(x[0] == y[0] for x, y in zip(A, B)):
        r = []
        for x, y in zip(A, B):
            if x[0] == "el":
                r.append(same(I, st, x[1], y[1]))
            else:
                r.append(both(x[1] == y[1], eq(st, x[2], y[2]), eq(st, x[3], y[3])))
        return both(*r)
    return False

class Entry:
    """One entry of the store as an operation left it."""
    def __init__(self, I, st, cell):
        self.I, self.st, self.cell = I, st, cell
        v = st.mem.get(cell)
        self.idx = cell[1]
        self.id = addc(self.idx, 1)
        self.gone = v is not None and v[0] == "gone"
        s = mono(self.idx)
        self.new = bool(s) and s not in I.origin and self.idx[1] == 0
        self.v = v
        self.raw = self.layout = None
        if v is not None and v[0] == "adt":
            self.raw = I._field(st, v, "raw")
            self.layout = I._field(st, v, "layout")

    def initial(self, f):
        e = self.I.p.types[self.I.entry_ty()]
        ti = [x[1] for x in e["v"][0]["f"] if x[0] == f][0]
        return self.I.expand(self.st, ("sym", ("E", self.idx, f), ti))

    def same_raw(self):
        return same(self.I, self.st, self.raw, self.initial("raw"))

    def same_layout(self):
        return same(self.I, self.st, self.layout, self.initial("layout"))

    def kind(self):
        return self.I.variant(self.raw) if self.raw is not None and self.raw[0] == "adt" else None

    def f(self, *names):
        v = self.raw if names[0] != "layout" else self.v
        if names[0] != "layout" and v is not None and v[0] == "adt" and v[3]:
            v = self.I.models.deref(self.st, v[3][0])
            if v[0] == "sym":
                v = self.I.expand(self.st, v)
        for n in names:
            if v is None or v[0] != "adt":
                return None
            v = self.I._field(self.st, v, n)
        return v

def entries(I, st):
    """Entries an operation has written to. (Cells that are no longer named by anything are left out.)"""
    return [Entry(I, st, c) for c in sorted(st.dirty, key=repr) if c[0] == "E" and (c in st.mem or rigid(c[1]))]

def self_id(I, st, key_locals_ty=None):
    """Term of the id held by the view passed as self."""
    for s, o in I.origin.items():
        if o in (("a0", "id", "0"), ("a0", "*", "id", "0")):
            return S(s)
    return None

def text_of(I, st, sid):
    """Text behind a stored string id."""
    v = I.models.deref(st, sid)
    if v[0] == "sym":
        v = I.expand(st, v)
    while v[0] == "adt" and len(v[3]) == 1:
        v = v[3][0]
        if v[0] == "sym":
            v = I.expand(st, v)
    return v[1] if v[0] == "hash" else None

# ---- views handed out by the public methods
VIEWS = {"Value": None, "ValueMut": None, "Mapping": {"Mapping"}, "MappingMut": {"Mapping"}, "Sequence": {"Sequence"}, "SequenceMut": {"Sequence"}}

def describe(I, st, v, depth=0):
    """What a returned value is: ('view', type, id term), ('rawview', type, entry index, field path), ('text', v), ('int', v),
    ('enum', type, variant, [payload]), ('none',), ('unit',), None if not known."""
    if v is None or depth > 8:
        return None
    for _ in range(6):
        if v[0] == "sym":
            w = I.expand(st, v)
            if w == v:
                break
            v = w
        elif v[0] == "ref" and v[1][0] != "E":
            w = I.models.deref(st, v)
            if w == v:
                break
            v = w
        else:
            break
    if is_int(v):
        return ("int", v)
    if v[0] == "b":
        return ("bool", v[1])
    if v[0] in ("bytes", "cref"):
        t = I.models.as_text(st, v)
        return ("text", t) if t is not None else None
    if v[0] == "obj":
        return ("obj", v)
    if v[0] == "tup":
        if not v[1]:
            return ("unit",)
        return ("tuple",) + tuple(describe(I, st, x, depth + 1) for x in v[1])
    if v[0] != "adt":
        return None
    t = I.p.types[v[1]]
    n = t["path"].split("::")[-1]
    if n == "Option" or n == "Result":
        if I.variant(v) == "None":
            return ("none",)
        if I.variant(v) == "Err":
            return ("err", v[3][0])
        return describe(I, st, v[3][0], depth + 1)
    if n in VIEWS and t.get("ak") != "enum":
        for (fn, ft), x in zip(t["v"][0]["f"], v[3]):
            if I.p.types[ft].get("path", "").endswith("::Id"):
                return ("view", n, I.idof(st, x))
        return None
    if n == "Id" and len(v[3]) == 1:
        i = I.idof(st, v)
        return ("id", i)
    if n == "StringId":
        return ("text", v[3][0][1]) if v[3] and v[3][0][0] == "hash" else None
    if t.get("ak") == "enum":
        return ("enum", n, I.variant(v), tuple(describe(I, st, x, depth + 1) for x in v[3]))
    if n in ("Number", "String"):
        for x in v[3]:
            if x[0] == "ref" and x[1][0] == "E":
                return ("rawview", n, x[1][1], x[2])
            if x[0] == "sym" and I.p.types[x[2]]["k"] == "ref" and "::raw::" in I.p.types[I.p.types[x[2]]["e"]].get("path", ""):
                return ("symview", n, x[1])
        return None
    return ("struct", n, v)

def changed(I, st):
    """Entries or pieces of the document an operation has written to."""
    return [c for c in st.dirty if c[0] == "E" or c[0] == "P"]

class Container:
    """A container as an operation found it and left it."""
    def __init__(self, I, st, kind):
        self.I, self.st, self.kind = I, st, kind
        self.id = self_id(I, st)
        self.known = self.id is not None
        if not self.known:
            return
        self.idx = addc(self.id, -1)
        self.name = ("E", self.idx, "raw", kind, "0", "items")
        self.n = I.length(st, self.name)

    def after(self):
        """Current list of entries, None if it was not touched, 'bad' if it is not known."""
        c = ("E", self.idx)
        if c not in self.st.dirty:
            return None
        e = Entry(self.I, self.st, c)
        l = e.f("items") if e.kind() == self.kind else None
        if l is None:
            return "bad"
        l = self.I.models.deref(self.st, l)
        if l[0] == "sym":
            return None if l[1] == self.name else "bad"
        if l[0] != "list":
            return "bad"
        l = self.I.models.lnorm(self.st, l)
        return None if self.is_list(l, [(C(0), self.n)]) else l

    def is_list(self, l, want):
        """Is the list exactly these ranges of the initial list, followed by nothing?"""
        got = []
        for p in l[1]:
            if p[0] != "sl" or p[1] != self.name:
                return False
            if self.st.F.eq(p[2], p[3]):
                continue
            if got and self.st.F.eq(got[-1][1], p[2]):
                got[-1] = (got[-1][0], p[3])
            else:
                got.append((p[2], p[3]))
        exp = []
        for a, b in want:
            if self.st.F.eq(a, b):
                continue
            if exp and self.st.F.eq(exp[-1][1], a):
                exp[-1] = (exp[-1][0], b)
            else:
                exp.append((a, b))
        return len(got) == len(exp) and all(self.st.F.eq(x[0], y[0]) and self.st.F.eq(x[1], y[1]) for x, y in zip(got, exp))

    def place(self, idt):
        """Position k when the id is the value of the container's k-th entry, else None."""
        nd = node(self.I, idt)
        if nd and nd[0] == "value" and nd[2] and nd[2][0] == "item" and nd[2][2] == self.name:
            return nd[2][3]
        return None

    # ---- what is known about keys
    def keybases(self, arg):
        o = self.I.origin.get(mono(self.id))
        want = ("E", ("id", -1, ("E", ("id", -1, o), "raw", self.kind, "0", "items", ("at", "_"), "0")), "raw", self.kind + "Item", "0", "key")
        for b in {k[0] for k in self.st.F.byte} | {g[0] for g in self.st.F.segs}:
            if b[0] == "eq" and b[1][:-1] == want and whole(self.I, self.st, b[2], lambda nm: nm[0] == arg):
                yield b, b[1][-1]

    def match_at(self, k, arg):
        """True/False if the key at k is known to equal/differ from the argument; None otherwise. And the field compared."""
        for b, fld in self.keybases(arg):
            m = self.st.F.cover(b, k, addc(k, 1))
            if m is not None and m != () and m != FULL8:
                if m == ((1, 1),): return True, fld
                if m == ((0, 0),): return False, fld
        return None, None

    def no_match(self, i, j, arg):
        if self.st.F.le(j, i):
            return True, None
        for b, fld in self.keybases(arg):
            if self.st.F.cover(b, i, j) == ((0, 0),):
                return True, fld
        return None, None
