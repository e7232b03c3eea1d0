"""Abstract interpreter over the dumped MIR.

It follows the calls of the crate (helpers are transparent), forks on branches, joins states at
loop heads (partitioned by the shape of the live values) until they are stable, and cuts recursion
with contracts supplied by the analysis. It never runs the program and asks no solver."""
import time
from .dom import *
from . import dom

UNIT = ("tup", ())
TRUE, FALSE = ("b", True), ("b", False)

class Budget(Exception):
    pass

class St:
    """One abstract state."""
    __slots__ = ("mem", "F", "ev", "taint", "dirty", "node", "org")

    def __init__(self):
        self.mem = {}
        self.F = Facts()
        self.ev = ()
        self.taint = frozenset()
        self.dirty = frozenset()
        self.node = 0           # automaton node the path started from
        self.org = None

    def copy(self):
        s = St.__new__(St)
        s.mem = dict(self.mem); s.F = self.F.copy(); s.ev = self.ev
        s.taint = self.taint; s.dirty = self.dirty; s.node = self.node; s.org = self.org
        return s

    def tainted(self, why):
        self.taint = self.taint | {why}
        return self

def some(ty, v):
    return ("adt", ty, 1, (v,))

class Interp:
    def __init__(self, prog, limit_s=300, max_depth=90):
        self.p = prog
        self.names = {}             # (name, type) -> symbol of an initial value
        self.cuts = {}              # function key -> contract
        self.panics = []            # (path of function, message, stack, state)
        self.undecided = {}         # reason -> count
        self.visited = {}           # function key -> visits
        self.rank = {}              # (instance, bb) -> info for the termination argument
        self.rank_fail = {}         # (fn path, bb ordinal) -> text
        self.loops = {}             # (fn key, bb) -> number of heads joined
        self.tmpl = {}              # folded list segments
        self.depth = 0
        self.max_depth = max_depth
        self.stack = []
        self.t0 = time.time()
        self.limit = limit_s
        self.steps = 0
        self.peel = False
        self.inst = 0
        self.edges = []             # automaton edges (from node, word, to node, tag)
        self.on_emit = None
        self.on_fail = None
        self.on_call = None
        self.io_err = False
        self.distinct_ids = True
        self.stop_panics = True
        self.max_joins = 24
        self.merge_returns = 24
        self.roots = ()
        self.origin = {}            # symbol -> name of the initial value it stands for
        self.lasting = {0}
        self.split = None       # what else tells loop head states apart
        self.keep_rigid = False     # keep what is learned about initial values to the end
        self.on_heap = None
        self.on_store = None
        self.on_push = None
        self.at_head = None
        self.head_hook = None       # like at_head, with the place
        self.exprs = False          # remember how numbers that are not linear were made
        self.store_missing = False
        self.may_miss = None
        self.folder = None
        self.at_return = None
        self.shape_var = None
        self.merge_calls = {}
        from . import models
        self.models = models.Models(self)

    # ------------------------------------------------------------ helpers
    def ty(self, i):
        return self.p.types[i]

    def note(self, st, why):
        self.undecided[why] = self.undecided.get(why, 0) + 1
        return st.tainted(why)

    def sym(self, st, name, ty, kind="z", mask=None):
        k = (name, ty if isinstance(ty, str) else self.p.types[ty]["s"])
        s = self.names.get(k)
        if s is None:
            s = fresh(kind)
            dom.RIGID.add(s)
            self.names[k] = s
            self.origin[s] = name
            if not self._has_at(name):
                self.lasting.add(s)
        if mask is not None and s not in st.F.mask:
            st.F.mask[s] = mask
        return S(s)

    def _has_at(self, v):
        if type(v) is tuple:
            if len(v) == 2 and v[0] == "at":
                return True
            if is_int(v):
                o = self.origin.get(mono(v) or 0)
                return o is not None and self._has_at(o)
            return any(self._has_at(x) for x in v if type(x) is tuple)
        return False

    def newint(self, st, lo=None, hi=None, kind="z"):
        s = fresh(kind)
        t = S(s)
        if lo is not None:
            st.F.assume_le(C(lo), t)
        if hi is not None:
            st.F.assume_le(t, C(hi))
        return t

    def newbyte(self, st, mask=FULL8):
        s = fresh("m")
        st.F.mask[s] = mask
        return S(s)

    def tyname(self, i):
        return self.p.types[i]["s"]

    # type classification
    def is_bytes_ty(self, i):
        """Types represented directly as text."""
        t = self.p.types[i]
        if t["k"] == "str":
            return True
        if t["k"] == "slice":
            e = self.p.types[t["e"]]
            return e["k"] == "uint" and e.get("bits") == 8
        if t["k"] == "adt":
            pa = t["path"]
            if pa in ("bstr::BStr", "std::string::String", "bstr::BString", "std::path::Path", "std::ffi::OsStr"):
                return True
            if pa == "std::vec::Vec" or pa == "std::boxed::Box":
                a = self.p.types[t["args"][0]]
                if pa == "std::vec::Vec":
                    return a["k"] == "uint" and a.get("bits") == 8
                return self.is_bytes_ty(t["args"][0])
        return False

    def is_list_ty(self, i):
        t = self.p.types[i]
        if t["k"] == "slice":
            return not self.is_bytes_ty(i)
        if t["k"] == "adt" and t["path"] == "std::vec::Vec":
            return not self.is_bytes_ty(i)
        return False

    def elem_ty(self, i):
        t = self.p.types[i]
        return t["e"] if t["k"] in ("slice", "array") else t["args"][0]

    def is_dst_bytes(self, i):
        """Unsized text: references to it are the text itself."""
        t = self.p.types[i]
        return t["k"] in ("str", "slice") and (self.is_bytes_ty(i)) or (t["k"] == "adt" and t["path"] in ("bstr::BStr",))

    def is_dst_list(self, i):
        t = self.p.types[i]
        return t["k"] == "slice" and not self.is_bytes_ty(i)

    # ------------------------------------------------------------ lazily known values
    def lazy(self, name, ty):
        return ("sym", name, ty)

    def expand(self, st, v):
        """Unfold a lazily known value one level, if its shape is determined."""
        if type(v) is not tuple or v[0] != "sym":
            return v
        _, name, ti = v
        t = self.p.types[ti]
        k = t["k"]
        if k == "bool":
            return self.sym(st, name, ti, "m", BOOL)
        if k == "uint":
            if t["bits"] == 8:
                return self.sym(st, name, ti, "m", FULL8)
            r = self.sym(st, name, ti, "z")
            if t["bits"] < 32:
                st.F.assume_le(r, C(2 ** t["bits"] - 1))
            elif name[0] == "E":
                st.F.assume_le(r, C(LENMAX))       # columns recorded in the tree
            return r
        if k == "int":
            return self.sym(st, name, ti, "o")
        if k == "char":
            return self.sym(st, name, ti, "m", CHARS)
        if k == "float":
            return v
        if k == "tuple":
            return ("tup", tuple(self.lazy(name + (i,), x) for i, x in enumerate(t["f"])))
        if k == "array" and "len" in t:
            if t["len"] <= 64:
                return ("arr", tuple(self.lazy(name + (i,), t["e"]) for i in range(t["len"])))
            return v
        if self.is_bytes_ty(ti):
            return self.text(st, name)
        if self.is_list_ty(ti):
            return ("list", (("sl", name, C(0), self.length(st, name), self.elem_ty(ti)),))
        if k == "adt":
            pa = t["path"]
            if pa == "nondestructive::yaml::data::StringId":
                return ("adt", ti, 0, (("hash", self.text(st, name)),))
            if pa == "slab::Slab":
                return ("slab", name, t["args"][0])
            if pa in ("std::collections::HashMap", "std::collections::BTreeMap"):
                return ("smap", name, t["args"][1])
            if pa in ("std::slice::Iter", "std::slice::IterMut", "std::vec::IntoIter"):
                et = [a for a in t["args"] if self.p.types[a]["k"] != "other"][0]
                n = self.length(st, name)
                return ("obj", "it", ("val",) if pa == "std::vec::IntoIter" else (), ("list", (("sl", name, C(0), n, et),)), C(0), n)
            if pa == "std::num::NonZero":
                return ("adt", ti, 0, (self.sym(st, name, ti, "id"),))
            if t["ak"] == "struct" and "v" in t and (t.get("local") or not pa.startswith(("std::slice", "std::vec", "std::iter", "std::collections", "core::slice"))):
                return ("adt", ti, 0, tuple(self.lazy(name + (f[0],), f[1]) for f in t["v"][0]["f"]))
            if t["ak"] == "enum" and "v" in t:
                if len(t["v"]) == 1:
                    return ("adt", ti, 0, tuple(self.lazy(name + (f[0],), f[1]) for f in t["v"][0]["f"]))
                vi = st.F.var.get(name)
                if vi is not None:
                    vv = t["v"][vi]
                    return ("adt", ti, vi, tuple(self.lazy(name + (vv["name"], f[0]), f[1]) for f in vv["f"]))
        return v

    def length(self, st, name):
        k = ("len", name)
        s = self.names.get(k)
        if s is None:
            s = fresh("z")
            dom.RIGID.add(s)
            self.names[k] = s
            self.origin[s] = k
            if not self._has_at(name):
                self.lasting.add(s)
        st.F.row(s)
        st.F.assume_le(S(s), C(LENMAX))
        return S(s)

    def text(self, st, name):
        return ("bytes", (("sub", name, C(0), self.length(st, name)),))

    def variants_of(self, ti):
        return self.p.types[ti].get("v")

    def vindex(self, ti, vname):
        for i, v in enumerate(self.p.types[ti]["v"]):
            if v["name"] == vname:
                return i
        raise KeyError(vname)

    def fork_variant(self, st, v):
        """(state, value) for every possible variant of an enum value."""
        if v[0] != "sym":
            return [(st, v)]
        _, name, ti = v
        t = self.p.types[ti]
        if t["k"] != "adt" or "v" not in t:
            return [(st, v)]
        if name in st.F.var or len(t["v"]) == 1:
            return [(st, self.expand(st, v))]
        out = []
        for i in range(len(t["v"])):
            s = st.copy()
            s.F.var[name] = i
            out.append((s, self.expand(s, v)))
        return out

    # ------------------------------------------------------------ memory
    def read(self, st, cell, path=()):
        v = st.mem.get(cell)
        if v is None:
            if cell[0] == "E":
                v = self.lazy_entry(st, cell)
            elif cell[0] == "P":
                v = ("sym", cell[1], cell[2])
                st.mem[cell] = v
            else:
                return ("top", "uninit %s" % (cell[0],))
        if path:
            v2, r = self._get(st, v, path)
            if v2 is not v:
                st.mem[cell] = v2
            return r
        e = self.expand(st, v)
        if e is not v:
            st.mem[cell] = e
        return e

    def lazy_entry(self, st, cell):
        v = ("sym", cell, self.entry_ty())
        st.mem[cell] = v
        return v

    def entry_ty(self):
        t = getattr(self, "_entry_ty", None)
        if t is None:
            for i, x in enumerate(self.p.types):
                if x["k"] == "adt" and x["path"] == "slab::Slab":
                    t = x["args"][0]
                    if self.p.types[t]["k"] == "adt":
                        break
            self._entry_ty = t
        return t

    def _get(self, st, v, path):
        """Value at `path` inside v, unfolding on the way. Returns (v unfolded, value)."""
        v = self.expand(st, v)
        if not path:
            return v, v
        p = path[0]
        if p[0] == "f":
            if v[0] == "ref" and v[1][-1] == "box":
                return v, v
            if v[0] == "adt":
                if p[1] is not None and p[1] != v[2]:
                    return v, ("top", "variant")
                if p[2] >= len(v[3]):
                    return v, ("top", "field")
                n, r = self._get(st, v[3][p[2]], path[1:])
                if n is not v[3][p[2]]:
                    v = v[:3] + (v[3][:p[2]] + (n,) + v[3][p[2] + 1:],)
                return v, r
            if v[0] == "tup" or v[0] == "clo":
                k = 1 if v[0] == "tup" else 2
                if p[2] >= len(v[k]):
                    return v, ("top", "field")
                n, r = self._get(st, v[k][p[2]], path[1:])
                if n is not v[k][p[2]]:
                    v = v[:k] + (v[k][:p[2]] + (n,) + v[k][p[2] + 1:],)
                return v, r
            if v[0] == "sym":
                t = self.p.types[v[2]]
                vs = t.get("v")
                if vs and p[1] is not None:
                    f = vs[p[1]]["f"][p[2]]
                    return v, self._get(st, ("sym", v[1] + (vs[p[1]]["name"], f[0]), f[1]), path[1:])[1]
                return v, ("top", "field of %s" % t["s"])
            return v, ("top", "field of " + str(v[0]))
        if p[0] == "x":
            if v[0] == "arr":
                if is_const(p[1]) and p[1][1] < len(v[1]):
                    i = p[1][1]
                    n, r = self._get(st, v[1][i], path[1:])
                    if n is not v[1][i]:
                        v = ("arr", v[1][:i] + (n,) + v[1][i + 1:])
                    return v, r
                lo, hi = st.F.bounds(p[1])
                vals = v[1][int(max(lo, 0)):int(min(hi, len(v[1]) - 1)) + 1]
                if vals and all(x == vals[0] for x in vals):
                    return v, vals[0]
                if vals and all(is_int(x) for x in vals):
                    m = ()
                    for x in vals:
                        m = rs_union(m, st.F.get_mask(x))
                    return v, self.newbyte(st, m)
                return v, ("top", "array index")
            if v[0] == "list":
                r = self.models.list_at(st, v, p[1])
                if r is None:
                    return v, ("top", "list index")
                return v, self._get(st, r, path[1:])[1]
            if v[0] == "bytes":
                r = self.models.byte_at(st, v, p[1])
                return v, r if r is not None else self.newbyte(st)
            return v, ("top", "index of " + str(v[0]))
        return v, ("top", "path")

    def write(self, st, cell, path, val):
        if cell[0] in ("E", "P"):
            st.dirty = st.dirty | {cell}
        if not path:
            st.mem[cell] = val
            return
        if cell not in st.mem:
            self.read(st, cell)
        st.mem[cell] = self._set(st, st.mem.get(cell, ("top", "uninit")), path, val)

    def _set(self, st, v, path, val):
        if not path:
            return val
        v = self.expand(st, v)
        p = path[0]
        if p[0] == "f":
            if v[0] == "adt" and p[2] < len(v[3]):
                return v[:3] + (v[3][:p[2]] + (self._set(st, v[3][p[2]], path[1:], val),) + v[3][p[2] + 1:],)
            if v[0] in ("tup", "clo"):
                k = 1 if v[0] == "tup" else 2
                if p[2] < len(v[k]):
                    return v[:k] + (v[k][:p[2]] + (self._set(st, v[k][p[2]], path[1:], val),) + v[k][p[2] + 1:],)
            return ("top", "write into " + str(v[0]))
        if p[0] == "x":
            if v[0] == "arr" and is_const(p[1]) and p[1][1] < len(v[1]):
                i = p[1][1]
                return ("arr", v[1][:i] + (self._set(st, v[1][i], path[1:], val),) + v[1][i + 1:])
            if v[0] == "list":
                r = self.models.list_set(st, v, p[1], lambda o: self._set(st, o, path[1:], val))
                if r is not None:
                    return r
        return ("top", "write into " + str(v[0]))

    # ------------------------------------------------------------ places and operands
    def loc(self, st, d, place, local_tys):
        """('loc', cell, path) or ('val', value)."""
        cur = ("loc", ("L", d, place[0]), ())
        var = None
        for e in place[1]:
            k = e[0]
            if k == "d":
                v = self.read(st, cur[1], cur[2]) if cur[0] == "loc" else self.expand(st, cur[1])
                if v[0] == "ref":
                    cur = ("loc", v[1], v[2])
                elif v[0] == "cref":
                    cur = ("val", v[1])
                elif v[0] == "sym" and self.p.types[v[2]]["k"] in ("ref", "ptr"):
                    pt = self.p.types[v[2]]["e"]
                    if self.is_dst_bytes(pt):
                        cur = ("val", self.text(st, v[1] + ("*",)))
                    elif self.is_dst_list(pt):
                        cur = ("val", self.expand(st, ("sym", v[1] + ("*",), pt)))
                    else:
                        cur = ("loc", ("P", v[1] + ("*",), pt), ())
                elif v[0] == "box":
                    cur = ("loc", v[1], ())
                elif cur[0] == "loc" and v[0] in ("bytes", "list", "arr"):
                    cur = ("val", v)
                else:
                    cur = ("val", v)
                var = None
            elif k == "v":
                var = e[1]
            elif k == "f":
                if cur[0] == "loc" and cur[1][-1] == "box":
                    continue        # the storage of a box that is being filled
                step = ("f", var, e[1])
                var = None
                cur = self._step(st, cur, step)
            elif k == "i":
                i = self.read(st, ("L", d, e[1]))
                cur = self._step(st, cur, ("x", i if is_int(i) else self.newint(st)))
            elif k == "ci":
                off = e[1]
                if e[3]:
                    base = self.read(st, cur[1], cur[2]) if cur[0] == "loc" else cur[1]
                    n = self.models.len_of(st, base)
                    cur = self._step(st, cur, ("x", addc(n, -off) if n is not None else self.newint(st)))
                else:
                    cur = self._step(st, cur, ("x", C(off)))
            elif k == "ss":
                base = self.read(st, cur[1], cur[2]) if cur[0] == "loc" else cur[1]
                cur = ("val", self.models.subslice(st, base, e[1], e[2], e[3]))
            elif k == "o":
                pass
            else:
                cur = ("val", ("top", "proj " + k))
        return cur

    def _step(self, st, cur, step):
        if cur[0] == "loc":
            return ("loc", cur[1], cur[2] + (step,))
        return ("val", self._get(st, cur[1], (step,))[1])

    def rd(self, st, d, place):
        c = self.loc(st, d, place, None)
        if c[0] == "loc":
            return self.read(st, c[1], c[2])
        return self.expand(st, c[1])

    def const(self, st, k):
        v, ti = k["v"], k["t"]
        return self.const_val(st, v, ti)

    def const_val(self, st, v, ti):
        t = self.p.types[ti]
        if v is None:
            return UNIT
        if "int" in v or "big" in v:
            n = int(v["int"] if "int" in v else v["big"])
            if t["k"] == "bool":
                return ("b", bool(n))
            return C(n)
        if "str" in v:
            return ("bytes", (("lit", bytes(v["str"])),) if v["str"] else ())
        if "bytes" in v:
            b = ("bytes", (("lit", bytes(v["bytes"])),) if v["bytes"] else ())
            if t["k"] == "array" or t["k"] == "ref" and self.p.types[t["e"]]["k"] == "array":
                a = ("arr", tuple(C(x) for x in v["bytes"]))
                return ("cref", a) if t["k"] == "ref" else a
            return b
        if "ref" in v:
            pt = t.get("e")
            inner = self.const_val(st, v["ref"], pt) if pt is not None else ("top", "constref")
            if pt is not None and (self.is_dst_bytes(pt)):
                if inner[0] == "arr":
                    return ("bytes", (("lit", bytes(x[1] for x in inner[1])),) if inner[1] else ())
                return inner
            return ("cref", inner)
        if "arr" in v:
            return ("arr", tuple(self.const_val(st, x["v"], x["t"]) for x in v["arr"]))
        if "adt" in v:
            fs = tuple(self.const_val(st, x["v"], x["t"]) for x in v["adt"])
            if t["k"] == "tuple":
                return ("tup", fs)
            if t["k"] == "adt" and t["path"] == "std::vec::Vec":
                return ("bytes", ()) if self.is_bytes_ty(ti) else ("list", ())
            if t["k"] == "adt" and t["path"] == "std::string::String":
                return ("bytes", ())
            return ("adt", ti, v.get("var", 0), fs)
        if "fn" in v:
            return ("fn", _freeze(v), ti)
        if "closure" in v:
            return ("clo", v["closure"], ())
        if "zst" in v:
            return self.zst(ti)
        if "static" in v:
            return ("top", "static " + str(v["static"]))
        if t["k"] == "adt" and t.get("path", "").endswith("option::Option") and "v" in t:
            # a constant Option of a generic type has no value to hold
            return ("adt", ti, self.vindex(ti, "None"), ())
        return ("top", "const")

    def zst(self, ti):
        t = self.p.types[ti]
        if t["k"] == "tuple" and not t["f"]:
            return UNIT
        if t["k"] == "fndef":
            return ("fn", (("path", t["path"]),), ti)
        if t["k"] == "closure":
            return ("clo", t.get("key") or t["s"], ())
        if t["k"] == "adt":
            if t.get("v") and len(t["v"]) == 1 and not t["v"][0]["f"]:
                return ("adt", ti, 0, ())
            if t.get("v") and len(t["v"]) == 1:
                return ("adt", ti, 0, tuple(self.zst(f[1]) for f in t["v"][0]["f"]))
            return ("obj", "zst", t["path"])
        if t["k"] == "array":
            return ("arr", ())
        return ("obj", "zst", t["s"])

    def op(self, st, d, o):
        if o[0] in ("c", "m"):
            return self.rd(st, d, o[1])
        if o[0] == "k":
            return self.const(st, o[1])
        if o[0] == "rc":
            return FALSE
        return ("top", "operand")

    # ------------------------------------------------------------ comparisons and arithmetic (forking)
    def compare(self, st, op, f, g):
        """[(state, bool)] for an integer comparison."""
        if op in ("Gt", "Ge"):
            return self.compare(st, "Lt" if op == "Gt" else "Le", g, f)
        if op == "Ne":
            return [(s, not b) for s, b in self.compare(st, "Eq", f, g)]
        F = st.F
        if op == "Eq":
            lo, hi = F.diff(f, g)
            if lo == 0 == hi:
                return [(st, True)]
            if lo > 0 or hi < 0:
                return [(st, False)]
            h = sub(f, g)
            if len(h[2]) == 1 and h[2][0][0] in F.mask and abs(h[2][0][1]) == 1:
                v = -h[1] * h[2][0][1]
                m = F.mask[h[2][0][0]]
                if not rs_has(m, v):
                    return [(st, False)]
                if rs_size(m) == 1:
                    return [(st, True)]
            if len(h[2]) == 2 and all(KIND[s] == "id" for s, _ in h[2]):
                if self.distinct_ids:
                    return [(st, False)]
            out = []
            s = st.copy()
            if s.F.assume_eq(f, g):
                out.append((s, True))
            s = st.copy()
            if s.F.assume_ne(f, g):
                out.append((s, False))
            return out
        c = 0 if op == "Le" else -1
        lo, hi = F.diff(f, g)
        if hi <= c:
            return [(st, True)]
        if lo > c:
            return [(st, False)]
        out = []
        s = st.copy()
        if s.F.assume_le(f, g, c):
            out.append((s, True))
        s = st.copy()
        if s.F.assume_le(g, f, -c - 1):
            out.append((s, False))
        return out

    def trange(self, ti):
        t = self.p.types[ti]
        if t["k"] == "uint":
            return 0, (UMAX if t["bits"] >= 64 else 2 ** t["bits"] - 1)
        if t["k"] == "int":
            return (-UMAX, UMAX) if t["bits"] >= 64 else (-2 ** (t["bits"] - 1), 2 ** (t["bits"] - 1) - 1)
        if t["k"] == "char":
            return 0, 0x10FFFF
        if t["k"] == "bool":
            return 0, 1
        return -INF, INF

    def arith(self, st, op, f, g, ti):
        """[(state, value, overflowed)] for Add/Sub/Mul on type ti, exact where no overflow."""
        lo, hi = self.trange(ti)
        if op == "Mul":
            if is_const(f):
                f, g = g, f
            if not is_const(g):
                return [(st, self.ofty(st, ti), False), (st.copy(), self.ofty(st, ti), True)]
            r = scale(f, g[1])
        else:
            r = add(f, g) if op == "Add" else sub(f, g)
        a, b = st.F.bounds(r)
        if a >= lo and b <= hi:
            return [(st, r, False)]
        out = []
        s = st.copy()
        if a > hi or b < lo:
            pass
        else:
            ok = s.F.assume_le(C(lo), r) if lo > -INF else True
            ok = ok and (s.F.assume_le(r, C(hi)) if hi < INF else True)
            if ok:
                out.append((s, r, False))
        # wrapped
        if a < lo:
            s = st.copy()
            if s.F.assume_le(r, C(lo - 1)):
                if lo == 0 and hi == UMAX:
                    v = self.newint(s)
                    s.F.assume_le(C(LENMAX), v)
                else:
                    v = add(r, C(hi - lo + 1)) if (b < lo) else self.ofty(s, ti)
                out.append((s, v, True))
        if b > hi:
            s = st.copy()
            if s.F.assume_le(C(hi + 1) if hi < UMAX else C(UMAX), r):
                v = add(r, C(-(hi - lo + 1))) if (a > hi and hi < UMAX) else self.ofty(s, ti)
                out.append((s, v, True))
        return out

    def ofty(self, st, ti):
        t = self.p.types[ti]
        if t["k"] == "uint" and t["bits"] == 8:
            return self.newbyte(st)
        if t["k"] == "uint":
            v = self.newint(st)
            if t["bits"] <= 32:
                st.F.assume_le(v, C(2 ** t["bits"] - 1))
            return v
        if t["k"] == "bool":
            return self.newbyte(st, BOOL)
        if t["k"] == "char":
            return self.newbyte(st, CHARS)
        if t["k"] == "int":
            return S(fresh("o"))
        return ("top", "of " + t["s"])

    def to_bool(self, st, v):
        """[(state, bool or None)]"""
        if v[0] == "b":
            return [(st, v[1])]
        if is_int(v):
            return [(s, not b) for s, b in self.compare(st, "Eq", v, C(0))]
        return [(st.copy().tainted("branch on unknown"), True), (st.copy().tainted("branch on unknown"), False)]

    def rvalue(self, st, d, r, dty):
        """[(state, value)]"""
        k = r[0]
        if k == "use":
            return [(st, self.op(st, d, r[1]))]
        if k == "ref":
            c = self.loc(st, d, r[2], None)
            if c[0] == "loc":
                # references to unsized or text places are the text itself
                if r[2][1] and r[2][1][-1][0] == "d":
                    pass
                t = self.p.types[dty]
                if t["k"] in ("ref", "ptr") and (self.is_dst_bytes(t["e"]) or self.is_dst_list(t["e"])):
                    if not self._mutref(t) or True:
                        v = self.read(st, c[1], c[2])
                        if self._mutref(t) and v[0] in ("bytes", "list", "arr"):
                            return [(st, ("ref", c[1], c[2]))]
                        if v[0] == "arr" and self.is_dst_bytes(t["e"]):
                            return [(st, v)]
                        return [(st, v)]
                return [(st, ("ref", c[1], c[2]))]
            v = c[1]
            if v[0] in ("bytes", "list"):
                return [(st, v)]
            return [(st, ("cref", v))]
        if k == "bin":
            return self.binop(st, r[1], self.op(st, d, r[2]), self.op(st, d, r[3]), r[4])
        if k == "un":
            a = self.op(st, d, r[2])
            if r[1] == "Not":
                t = self.p.types[r[3]]
                if t["k"] == "bool":
                    return [(s, ("b", not b)) for s, b in self.to_bool(st, a)]
                if is_const(a) and t["k"] == "uint":
                    return [(st, C(2 ** t["bits"] - 1 - a[1]))]
                return [(st, self.ofty(st, r[3]))]
            if r[1] == "Neg":
                if is_int(a):
                    return [(st, scale(a, -1))]
                return [(st, self.ofty(st, r[3]))]
            if r[1] == "PtrMetadata":
                n = self.models.len_of(st, self.models.deref(st, a))
                return [(st, n if n is not None else self.note(st, "len of unknown") and self.newint(st))]
            return [(self.note(st, "unop " + r[1]), ("top", "unop"))]
        if k == "cast":
            return self.cast(st, r[1], self.op(st, d, r[2]), r[3], r[4])
        if k == "discr":
            v = self.rd(st, d, r[1])
            ti = r[2]
            if v[0] == "sym":
                out = []
                c = self.loc(st, d, r[1], None)
                for s, x in self.fork_variant(st, v):
                    if x[0] == "adt":
                        if c[0] == "loc":
                            cur = self.read(s, c[1], c[2])
                        out.append((s, C(self._discr(ti, x[2]))))
                    else:
                        out.append((self.note(s, "discriminant of unknown type"), ("top", "discr")))
                return out
            if v[0] == "adt":
                return [(st, C(self._discr(v[1] if "v" in self.p.types[v[1]] else ti, v[2])))]
            if v[0] == "top" and str(v[1]).startswith(("uninit", "dead")):
                return [(st, ("top", "dead"))]      # the optimiser removed the only real use
            return [(self.note(st, "discriminant of " + v[0]), ("top", "discr"))]
        if k == "agg":
            ops = tuple(self.op(st, d, o) for o in r[4])
            if r[1] == "array":
                return [(st, ("arr", ops))]
            if r[1] == "tuple":
                return [(st, ("tup", ops))]
            if r[1] == "adt":
                t = self.p.types[r[2]]
                if t["path"] == "nondestructive::yaml::data::StringId" and ops and ops[0][0] == "hashb":
                    return [(st, ("adt", r[2], 0, (("hash", ops[0][1]),)))]
                return [(st, ("adt", r[2], r[3], ops))]
            if r[1] == "closure":
                t = self.p.types[r[2]]
                return [(st, ("clo", (r[5] if len(r) > 5 and r[5] else None) or t.get("key") or t["s"], ops))]
            if r[1] == "rawptr":
                return [(st, ops[0])]
            return [(st, ("top", "agg"))]
        if k == "rep":
            v = self.op(st, d, r[1])
            if r[2] is not None and r[2] <= 4096:
                return [(st, ("arr", (v,) * r[2]))]
            return [(st, ("top", "repeat"))]
        return [(self.note(st, "rvalue " + k), ("top", k))]

    def _mutref(self, t):
        return bool(t.get("mut"))

    def _discr(self, ti, var):
        vs = self.p.types[ti].get("v")
        return vs[var]["discr"] if vs else var

    def binop(self, st, op, a, b, ti):
        t = self.p.types[ti]
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            if a[0] == "b":
                a = C(int(a[1]))
            if b[0] == "b":
                b = C(int(b[1]))
            if is_int(a) and is_int(b):
                if t["k"] in ("ptr", "float"):
                    return [(st.copy(), TRUE), (st.copy(), FALSE)]
                return [(s, ("b", x)) for s, x in self.compare(st, op, a, b)]
            if ("top", "dead") in (a, b):
                return [(st, ("top", "dead"))]
            if True:
                s1 = st.copy(); s2 = st.copy()
                if a[0] == "top" or b[0] == "top":
                    self.note(s1, "comparison of unknown values"); self.note(s2, "comparison of unknown values")
                return [(s1, TRUE), (s2, FALSE)]
        if op in ("BitAnd", "BitOr", "BitXor") and t["k"] == "bool":
            out = []
            for s, x in self.to_bool(st, a):
                for s2, y in self.to_bool(s, b):
                    out.append((s2, ("b", x & y if op == "BitAnd" else x | y if op == "BitOr" else x ^ y)))
            return out
        if not (is_int(a) and is_int(b)):
            if a[0] == "b":
                a = C(int(a[1]))
            if b[0] == "b":
                b = C(int(b[1]))
            if not (is_int(a) and is_int(b)):
                return [(self.note(st, "arithmetic on unknown values"), ("tup", (self.ofty(st, ti), FALSE)) if op.endswith("WithOverflow") else self.ofty(st, ti))]
        if op in ("AddWithOverflow", "SubWithOverflow", "MulWithOverflow"):
            return [(s, ("tup", (v, ("b", o)))) for s, v, o in self.arith(st, op[:3], a, b, ti)]
        if op in ("Add", "Sub", "Mul", "AddUnchecked", "SubUnchecked", "MulUnchecked"):
            return [(s, v) for s, v, o in self.arith(st, op[:3], a, b, ti)]
        if op == "Cmp":
            out = []
            for s, lt in self.compare(st, "Lt", a, b):
                if lt:
                    out.append((s, -1))
                else:
                    for s2, e in self.compare(s, "Eq", a, b):
                        out.append((s2, 0 if e else 1))
            return [(s, ("ord", v)) for s, v in out]
        if is_const(a) and is_const(b):
            x, y = a[1], b[1]
            try:
                if op == "Div": return [(st, C(x // y))]
                if op == "Rem": return [(st, C(x % y))]
                if op == "BitAnd": return [(st, C(x & y))]
                if op == "BitOr": return [(st, C(x | y))]
                if op == "BitXor": return [(st, C(x ^ y))]
                if op in ("Shl", "ShlUnchecked"): return [(st, C((x << y) & (2 ** t.get("bits", 64) - 1)))]
                if op in ("Shr", "ShrUnchecked"): return [(st, C(x >> y))]
            except Exception:
                pass
        r = self.ofty(st, ti)
        if is_int(r):
            if op in ("Div", "Shr") and st.F.bounds(a)[0] >= 0:
                st.F.assume_le(r, a)
            if op in ("Rem",) and is_const(b):
                st.F.assume_le(r, C(b[1] - 1))
            if op == "BitAnd":
                for x in (a, b):
                    if st.F.bounds(x)[0] >= 0:
                        st.F.assume_le(r, x)
            if op in ("Div", "Rem") and is_const(b) and t.get("bits") == 8 and a[2]:
                vals = [n // b[1] if op == "Div" else n % b[1] for n in rs_iter(st.F.get_mask(a))]
                st.F.mask[mono(r)] = rs(*vals)
            if op in ("BitAnd", "BitOr", "BitXor", "Shr", "Shl") and t.get("bits") == 8:
                ma, mb = st.F.get_mask(a), st.F.get_mask(b)
                if rs_size(ma) * rs_size(mb) <= 4096:
                    f = {"BitAnd": lambda x, y: x & y, "BitOr": lambda x, y: x | y, "BitXor": lambda x, y: x ^ y,
                         "Shr": lambda x, y: x >> y, "Shl": lambda x, y: (x << y) & 255}[op]
                    st.F.mask[mono(r)] = rs(*{f(x, y) for x in rs_iter(ma) for y in rs_iter(mb)})
            if self.exprs and mono(r):
                (la, ha), (lb, hb) = st.F.bounds(a), st.F.bounds(b)
                w = t.get("bits", 64)
                if la >= 0 and lb >= 0 and max(ha, hb) < 2 ** w:
                    if op in ("BitOr", "BitXor"):
                        st.F.assume_le(r, C((1 << max(int(ha).bit_length(), int(hb).bit_length())) - 1))
                    elif op in ("Shl", "ShlUnchecked") and is_const(b) and int(ha) << b[1] < 2 ** w:
                        st.F.assume_le(r, C(int(ha) << b[1]))
                st.F.misc[("expr", r)] = (op, self.expr_of(st, a), self.expr_of(st, b))
        return [(st, r)]

    def expr_of(self, st, t):
        return ("sum", t[1], tuple((c, st.F.misc.get(("expr", S(s))) or ("sym", s)) for s, c in t[2]))

    def cast(self, st, kind, v, to, frm):
        t, f = self.p.types[to], self.p.types[frm]
        if "Unsize" in kind:
            # arrays to slices keep their value
            if t["k"] in ("ref", "ptr"):
                pt = self.p.types[t["e"]]
                if pt["k"] == "slice":
                    inner = self.models.deref(st, v)
                    if inner[0] == "arr":
                        if v[0] == "ref" and t.get("mut"):
                            return [(st, v)]
                        if self.is_bytes_ty(t["e"]):
                            return [(st, self.models.arr_bytes(inner))]
                        return [(st, ("list", tuple(("el", x) for x in inner[1])))]
            return [(st, v)]
        if kind == "IntToInt":
            if v[0] == "b":
                v = C(int(v[1]))
            if is_int(v):
                lo, hi = self.trange(to)
                a, b = st.F.bounds(v)
                if a >= lo and b <= hi:
                    return [(st, v)]
                if is_const(v) and t["k"] == "uint":
                    return [(st, C(v[1] & (2 ** t["bits"] - 1)))]
                if f["k"] in ("uint", "char") and t.get("bits") == 8 and rs_size(st.F.get_mask(v)) < 5000:
                    return [(st, self.newbyte(st, rs(*{x & 255 for x in rs_iter(st.F.get_mask(v))})))]
                # fork: in range (exact) or not
                out = []
                s = st.copy()
                if s.F.assume_le(C(lo), v) and s.F.assume_le(v, C(hi)):
                    out.append((s, v))
                s = st.copy()
                out.append((s, self.ofty(s, to)))
                return out
            return [(st, self.ofty(st, to))]
        if kind in ("Transmute", "BoxDerefTransmute") or "PtrToPtr" in kind or "Pointer" in kind or "Reify" in kind:
            return [(st, v)]
        if t["k"] in ("int", "uint"):
            return [(st, self.ofty(st, to))]
        return [(st, ("top", "cast " + kind))]

    # ------------------------------------------------------------ functions
    def run_fn(self, key, args, st, ctx=None):
        """All (state, return value) outcomes of calling `key`."""
        self.steps += 1
        if time.time() - self.t0 > self.limit:
            raise Budget("time")
        f = self.p.fns[key]
        if f.get("failed"):
            return [(self.note(st, "no body: " + key), ("top", key))]
        self.visited[key] = self.visited.get(key, 0) + 1
        d = self.depth + 1
        if d > self.max_depth:
            raise Budget("depth " + " > ".join(x.split("::")[-1] for x in self.stack[-12:]))
        self.depth = d
        self.stack.append(key)
        self.inst += 1
        inst = self.inst
        try:
            st = st.copy()
            n = f["n_args"]
            if f.get("spread") is not None or len(args) != n:
                # closure calls pass a tuple
                if len(args) == 2 and args[1][0] == "tup" and n != len(args):
                    args = [args[0]] + list(args[1][1])
                elif f.get("spread") is not None:
                    sp = f["spread"] - 1
                    args = list(args[:sp]) + [("tup", tuple(args[sp:]))]
            for i, a in enumerate(args):
                st.mem[("L", d, i + 1)] = a
            return self._explore(key, f, st, d, inst)
        finally:
            self.stack.pop()
            self.depth = d - 1

    def _explore(self, key, f, st, d, inst):
        heads, live, taken = self.p.cfg(key)
        bbs = f["bbs"]
        H = {}          # (bb, shape) -> dict(state, version, joins)
        results = []    # (state, value, tag)
        work = [(0, st, None)]
        fails0 = {}
        meet = self.p.joins(key, self.merge_calls[key]) if key in self.merge_calls else {}
        held = {}
        while work or held:
            met = None
            if work:
                bb, st, tag = work.pop()
                if type(tag) is tuple and tag[1] == "met":
                    tag, met = tag[0], bb
                if tag is not None and H[tag[0]]["v"] != tag[1]:
                    continue
            else:
                met, tag = min(held, key=lambda x: (meet[x[0]], repr(x[1])))
                g = held.pop((met, tag))
                if tag is not None and H[tag[0]]["v"] != tag[1]:
                    continue
                if len(g) > 1:
                    for s in g:
                        for c in [c for c in s.mem if c[0] == "L" and c[1] == d and c[2] not in live[met] and c[2] not in taken]:
                            del s.mem[c]
                        self.gc(s)
                        s.node = g[0].node
                    g = [s for s, _ in self._merge([(s, ("tup", ())) for s in g])]
                bb, st = met, g[0]
                for s in g[1:]:
                    work.append((met, s, (tag, "met")))
            while True:
                if bb in meet and bb != met:
                    held.setdefault((bb, tag), []).append(st)
                    break
                met = None
                if bb in heads:
                    r = self._arrive(key, f, d, inst, bb, st, H, live, tag, fails0)
                    if r is None:
                        break
                    st, tag = r
                b = bbs[bb]
                if b is None:
                    break
                states = [st]
                for s in b[0]:
                    states = self._stmt(states, d, s, f)
                    if not states:
                        break
                nxt = []
                for s in states:
                    nxt.extend(self._term(key, f, d, s, b[1], bb, live))
                if not nxt:
                    break
                rest = []
                for k, s, v in nxt:
                    if k == "ret":
                        results.append((s, v, tag))
                    else:
                        rest.append((k, s))
                if not rest:
                    break
                bb, st = rest[0]
                for k, s in rest[1:]:
                    work.append((k, s, tag))
        out = []
        for s, v, tag in results:
            if tag is not None and H[tag[0]]["v"] != tag[1]:
                continue
            out.append((s, v))
        for (bb, tagv), txt in fails0.items():
            if tagv is None or H[tagv[0]]["v"] == tagv[1]:
                pass
        self._rank_result(key, inst, H, fails0)
        # leave the frame
        fin = []
        for s, v in out:
            for c in [c for c in s.mem if c[0] in ("L", "R") and c[1] == d]:
                del s.mem[c]
            fin.append((s, v if self.at_return is None else self.at_return(key, s, v)))
        fin = self._gc_results(fin)
        return fin

    def _gc_results(self, outs):
        res = []
        for s, v in outs:
            self.gc(s, (v,))
            res.append((s, v))
        if len(res) > 2:
            res = self._merge_same(res)
        if len(res) > self.merge_returns:
            res = self._merge(res)
        return res

    def _merge_same(self, outs):
        """Join outcomes that agree on every value and on which bytes are known."""
        groups = {}
        for s, v in outs:
            k = (frozenset(s.mem.items()), v, s.ev, s.node, s.taint, s.dirty, frozenset(s.F.byte), frozenset(s.F.var.items()),
                 frozenset(x for x in s.F.eqs.items() if x[0][0] != "stored"), frozenset(s.F.misc.items()))
            groups.setdefault(k, []).append((s, v))
        if len(groups) == len(outs):
            return outs
        return self._join_groups(groups)

    def _merge(self, outs):
        groups = {}
        for s, v in outs:
            k = (self.shape(s, None, v), s.ev, s.node, s.taint)
            groups.setdefault(k, []).append((s, v))
        return self._join_groups(groups)

    def _join_groups(self, groups):
        res = []
        for k, g in groups.items():
            while len(g) > 1:
                (s1, v1), (s2, v2) = g[0], g[1]
                s1.mem[("R0",)] = v1
                s2.mem[("R0",)] = v2
                j, _ = self.join(s1, s2, False)
                v = j.mem.pop(("R0",))
                g = [(j, v)] + g[2:]
            res.append(g[0])
        return res

    # ------------------------------------------------------------ garbage
    def live_syms(self, st, extra=(), head=False):
        keep = {0}
        todo = []
        for c, v in st.mem.items():
            if c[0] != "E":
                syms_of(v, keep)
                syms_of(c, keep)
        for v in extra:
            syms_of(v, keep)
        syms_of(st.ev, keep)
        for c in self.roots:
            syms_of(c, keep)
        if not head:
            # positions that name a list element still referred to
            todo = [x for x in keep if x in self.origin and x not in self.lasting]
            while todo:
                for x in syms_of(self.origin[todo.pop()], set()):
                    if x not in keep or x not in dom.RIGID:
                        if x not in keep and x in self.origin:
                            todo.append(x)
                        keep.add(x)
        if self.keep_rigid:
            keep |= self.lasting if head else dom.RIGID
        # entries reachable through live identifiers
        ents = [(c, v) for c, v in st.mem.items() if c[0] == "E"]
        changed = True
        seen = set()
        while changed:
            changed = False
            for c, v in ents:
                if c in seen:
                    continue
                if syms_of(c, set()) <= keep:
                    seen.add(c)
                    n = len(keep)
                    syms_of(v, keep)
                    if len(keep) != n:
                        changed = True
        for c, v in ents:
            if c not in seen:
                del st.mem[c]
        # lengths of texts that are referred to
        for k, s in self.names.items():
            if k[0] == "len" and s in st.F.idx:
                keep.add(s)
        return keep

    def gc(self, st, extra=(), head=False):
        keep = self.live_syms(st, extra, head)
        if any(type(k) is tuple and k and k[0] == "any" for k in st.F.var):
            # choices made about unknown results that nothing refers to any more
            used = set()
            for v in list(st.mem.values()) + list(extra) + [st.ev]:
                any_names(v, used)
            st.F.var = {k: v for k, v in st.F.var.items() if not (type(k) is tuple and k and k[0] == "any") or k[:2] in used}
        st.F.project(keep)
        if st.dirty:
            st.dirty = frozenset(c for c in st.dirty if c in st.mem)

    # ------------------------------------------------------------ loop heads
    def shape(self, st, cells=None, extra=None):
        out = []
        for c in sorted(st.mem, key=repr):
            if c[0] == "E" or c[0] == "R" or c[0] == "P":
                if c[0] == "E" and self.split is not None:
                    out.append(("E", self.vshape(st, st.mem[c])))
                continue
            out.append((c, self.vshape(st, st.mem[c])))
        if extra is not None:
            out.append(self.vshape(st, extra))
        vs = tuple(sorted(((repr(k), v) for k, v in st.F.var.items() if self.shape_var is None or self.shape_var(k))))
        if self.split is not None:
            vs += (self.split(st),)
        return (tuple(out), vs)

    def vshape(self, st, v):
        if type(v) is not tuple or not v:
            return v
        k = v[0]
        if k == "i":
            s = mono(v)
            if s and st.F.mask.get(s) == BOOL:
                return "bs"
            return "i"
        if k == "b":
            return v
        if k == "bytes":
            return ("bytes", tuple((p[0], p[1]) if p[0] == "lit" and len(p[1]) < 3 else p[0] for p in v[1])) if len(v[1]) <= 1 else ("bytes", "many")
        if k == "list":
            return ("list", tuple(p[0] for p in v[1]))
        if k == "sym":
            return ("sym",)
        if k == "hash":
            return ("hash", self.vshape(st, v[1]))
        if k == "adt":
            return ("adt", v[2], tuple(self.vshape(st, x) for x in v[3]))
        if k in ("tup", "arr"):
            return (k,) + tuple(self.vshape(st, x) for x in v[1])
        if k == "clo":
            return ("clo", v[1]) + tuple(self.vshape(st, x) for x in v[2])
        if k == "ref":
            return ("ref", v[1][0])
        if k == "obj":
            if v[1] == "it" and v[3][0] in ("arr", "list") and len(v[3][1]) <= 16 and is_const(v[4]) and is_const(v[5]) \
                    and (v[3][0] == "arr" or all(x[0] == "el" for x in v[3][1])):
                return ("obj", "it", v[2], v[3], v[4], v[5])
            return tuple(self.vshape(st, x) if type(x) is tuple else x for x in v)
        return (k,)

    def _arrive(self, key, f, d, inst, bb, st, H, live, tag, fails):
        if self.at_head is not None:
            self.at_head(st)
        if self.head_hook is not None:
            self.head_hook(key, bb, st)
        # drop dead locals of this frame
        lv = live[bb]
        heads, _, taken = self.p.cfg(key)
        for c in [c for c in st.mem if c[0] == "L" and c[1] == d and c[2] not in lv and c[2] not in taken]:
            del st.mem[c]
        self.fold_lists(st)
        for o in self.p.loops(key)[bb]:
            st.mem.pop(("R", d, o), None)
        rk = ("R", d, bb)
        snap = st.mem.pop(rk, None)
        if snap is not None:
            self._rank_step(key, inst, bb, st, snap, tag, H, fails)
        self.gc(st, head=True)
        shp = (bb, self.shape(st), self.peel and snap is not None)
        h = H.get(shp)
        if h is None:
            h = H[shp] = {"st": st.copy(), "v": 0, "joins": 0, "node": None}
            self.loops[(key, bb)] = self.loops.get((key, bb), 0) + 1
            if len([1 for k in H if k[0] == bb]) > 320:
                raise Budget("too many head shapes in " + key)
        else:
            j, changed = self.join(h["st"], st, h["joins"] >= 2, True, h["joins"] >= 10)
            if not changed:
                self._edge(st, self._node(inst, h), tag, H)
                return None
            h["joins"] += 1
            if h["joins"] > self.max_joins and not (h["joins"] <= 120 and self._only_masks(h["st"], j)):
                if self._give_up(h, st, j, key, bb):
                    self._edge(st, self._node(inst, h), tag, H)
                    return None
            h["st"] = j
            h["v"] += 1
        self._edge(st, self._node(inst, h), tag, H)
        n = h["st"].copy()
        n.F.close()
        n.ev = ()
        n.node = self._node(inst, h)
        n.mem[rk] = ("rk", tuple(self._measures(n, d)))
        ntag = (shp, h["v"])
        n.org = (inst, ntag)
        return n, ntag

    def _only_masks(self, a, b):
        """The join only made sets of bytes larger or left facts out, which ends by itself."""
        return ({c: v for c, v in a.mem.items() if c[0] != "R"} == {c: v for c, v in b.mem.items() if c[0] != "R"}
                and all(set(p for p, _ in v[1]) <= set(p for p, _ in a.mem[c][1]) for c, v in b.mem.items() if c[0] == "R") and a.F.var == b.F.var and set(a.F.mask) >= set(b.F.mask) and set(a.F.idx) >= set(b.F.idx))

    def _give_up(self, h, st, j, key, bb):
        raise Budget("loop did not stabilise in %s bb%d" % (key, bb))

    def _node(self, inst, h):
        if h["node"] is None:
            h["node"] = self.newnode()
        return h["node"]

    def newnode(self):
        self.nodes = getattr(self, "nodes", 0) + 1
        return self.nodes

    def _edge(self, st, to, tag, H):
        self.edges.append((st.node, st.ev, to, None if tag is None else (H, tag), st.org))

    def fold_lists(self, st):
        self.models.fold_lists(st)

    # ---- termination argument: some live integer strictly moves towards a bound
    def _measures(self, st, d):
        """Live integer components, by structural path."""
        out = []
        cells = [c for c in st.mem if (c[0] == "L") or c[0] == "P" or c[0] == "G"]
        for c in sorted(cells, key=repr):
            for p, t in terms_of(st.mem[c]):
                if mono(t) is not None and KIND.get(mono(t) or 0, "z") in ("z",):
                    out.append(((c, p), t))
        return out

    def _rank_step(self, key, inst, bb, st, snap, tag, H, fails):
        cur = dict(self._measures(st, None))
        good = set()
        for p, o in snap[1]:
            n = cur.get(p)
            if n is None:
                continue
            lo, hi = st.F.diff(n, o)
            if lo >= 1:
                s = mono(n)
                bounded = st.F.bounds(n)[1] < UMAX
                if not bounded:
                    # below something that does not move up
                    bounded = any(q != p and q in cur and st.F.le(n, cur[q]) and st.F.le(cur[q], m) for q, m in snap[1])
                if not bounded and p[1] and p[1][-1] == 4:
                    # place of an iterator in a sequence that stays as it is
                    it = st.mem.get(p[0])
                    for i in p[1][:-1]:
                        it = it[i] if type(it) is tuple and len(it) > i else None
                    pre = p[1][:-1] + (3,)
                    bounded = type(it) is tuple and it[:2] == ("obj", "it") and all(st.F.eq(cur[q], m) for q, m in snap[1] if q in cur and q[0] == p[0] and q[1][:len(pre)] == pre)
                if bounded:
                    good.add(p)
            elif hi <= -1 and st.F.bounds(n)[0] >= -1:
                good.add(p)
        R = self.rank.setdefault((key, inst, bb), [])
        R.append((tag, frozenset(good), bool(st.taint)))

    def _rank_result(self, key, inst, H, fails):
        done = {}
        for (k, i, bb), lst in list(self.rank.items()):
            if i != inst:
                continue
            live = [(t, g, ta) for t, g, ta in lst if t is None or (t[0] in H and H[t[0]]["v"] == t[1])]
            del self.rank[(k, i, bb)]
            if not live:
                continue
            common = None
            taint = False
            for t, g, ta in live:
                taint |= ta
                common = g if common is None else common & g
            done[bb] = bool(common)
            rec = self.rank_fail.setdefault((key, bb), {"ok": 0, "bad": 0, "taint": 0, "why": ""})
            if common:
                rec["ok"] += 1
            elif taint:
                rec["taint"] += 1
            else:
                rec["bad"] += 1
                rec["why"] = " > ".join(x.split("::")[-1] for x in self.stack[-6:])

    # ------------------------------------------------------------ join
    def join(self, A, B, widen, loop=False, hard=False):
        """Join B into A. Returns (state, changed)."""
        au = AU(A.F, B.F, loop)
        au.hard = hard
        J = St()
        J.ev, J.node = A.ev, A.node
        J.taint = A.taint | B.taint
        if not B.taint <= A.taint:
            au.changed = True
        J.dirty = A.dirty | B.dirty
        rootc = [c for c in A.mem if c[0] not in ("E",)]
        for c in sorted(rootc, key=repr):
            a = A.mem[c]
            if syms_of(c, set()):
                continue
            if c[0] == "R":
                b = dict(B.mem[c][1]) if c in B.mem else {}
                J.mem[c] = ("rk", tuple((p, au.value(t, b[p])) for p, t in a[1] if p in b))
                if len(J.mem[c][1]) != len(a[1]):
                    au.changed = True
                continue
            if c not in B.mem:
                if c[0] == "P" and c not in A.dirty:
                    continue
                au.changed = True
                J.mem[c] = ("top", "join")
                continue
            b = B.mem[c]
            if a == b and a[0] != "top":
                # still register the symbols
                v = au.value(a, b)
                J.mem[c] = v
                continue
            if c[0] == "P" and (a[0] == "sym") != (b[0] == "sym"):
                # one side has not looked at it yet
                a2, b2 = self._align(A, a, b), self._align(B, b, a)
                J.mem[c] = au.value(a2, b2)
                continue
            J.mem[c] = au.value(self._align(A, a, b), self._align(B, b, a))
        for c in B.mem:
            if c[0] not in ("E", "R") and c not in A.mem:
                if c[0] == "P" and c not in B.dirty:
                    continue
                J.mem[c] = ("top", "join")
                au.changed = True
        # entries of the initial document keep their names
        if self.keep_rigid:
            for c in sorted({c for m in (A.mem, B.mem) for c in m if c[0] == "E"}, key=repr):
                s = mono(c[1])
                if s and s in dom.RIGID:
                    au.term(S(s), S(s))
                    for X in (A, B):
                        if c not in X.mem and (c in A.dirty or c in B.dirty):
                            X.mem[c] = self.lazy_entry(X, c)
            for s in sorted((fact_syms(A.F) | fact_syms(B.F)) & dom.RIGID):
                if s not in au.m:
                    au.term(S(s), S(s))
        # heap entries reachable through joined identifiers
        doneA = set()
        prog = True
        while prog:
            prog = False
            for c in [c for c in A.mem if c[0] == "E" and c not in doneA]:
                s = mono(c[1])
                if not s:
                    continue
                for js, (a, b) in list(au.joined.items()):
                    if mono(a) == s and KIND[js] != "m":
                        off = c[1][1] - a[1]
                        cj = ("E", S(js, off))
                        if cj in J.mem:
                            continue
                        cb = ("E", addc(b, off))
                        prog = True
                        doneA.add(c)
                        if cb not in B.mem:
                            if c in A.dirty or A.mem[c][0] != "sym" and c in A.dirty:
                                J.mem[cj] = ("top", "join")
                                au.changed = True
                            continue
                        va, vb = A.mem[c], B.mem[cb]
                        J.mem[cj] = au.value(self._align(A, va, vb), self._align(B, vb, va))
                        if c in A.dirty or cb in B.dirty:
                            J.dirty = J.dirty | {cj}
        J.F = au.facts(widen)
        if dom.TRACE:
            for w in au.why:
                print("   join:", w[0], {k: (str(x)[:120]) for k, x in w[1].items()})
        return J, au.changed

    def _align(self, st, a, b):
        """Unfold lazily known parts of a that are unfolded in b."""
        if type(a) is not tuple or type(b) is not tuple or not a or not b:
            return a
        if a[0] == "sym" and b[0] != "sym":
            e = self.expand(st, a)
            if e[0] == "sym":
                t = self.p.types[a[2]]
                if t["k"] == "ref" and b == ("ref", ("P", a[1] + ("*",), t["e"]), ()):
                    return b
                return a
            return self._align(st, e, b)
        if a[0] == b[0] == "adt" and len(a[3]) == len(b[3]) and a[2] == b[2]:
            return a[:3] + (tuple(self._align(st, x, y) for x, y in zip(a[3], b[3])),)
        if a[0] == b[0] == "tup" and len(a[1]) == len(b[1]):
            return ("tup", tuple(self._align(st, x, y) for x, y in zip(a[1], b[1])))
        return a

    # ------------------------------------------------------------ statements and terminators
    def _stmt(self, states, d, s, f):
        k = s[0]
        out = []
        if k == "=":
            place, rv = s[1], s[2]
            for st in states:
                dty = self._place_ty(f, place)
                for s2, v in self.rvalue(st, d, rv, dty):
                    if not place[1]:
                        s2.mem[("L", d, place[0])] = v
                    else:
                        c = self.loc(s2, d, place, None)
                        if c[0] == "loc":
                            self.write(s2, c[1], c[2], v)
                        else:
                            self.note(s2, "write through unknown place")
                    out.append(s2)
            return out
        if k == "dead":
            for st in states:
                st.mem.pop(("L", d, s[1]), None)
            return states
        if k == "sd":
            for st in states:
                c = self.loc(st, d, s[1], None)
                v = self.read(st, c[1], c[2]) if c[0] == "loc" else ("top",)
                if v[0] == "adt":
                    self.write(st, c[1], c[2], v[:2] + (s[2],) + v[3:])
                else:
                    self.note(st, "set discriminant")
            return states
        if k == "assume":
            for st in states:
                v = self.op(st, d, s[1])
                if v[0] != "b" and not is_int(v):
                    out.append(st)
                    continue
                for s2, b in self.to_bool(st, v):
                    if b:
                        out.append(s2)
            return out
        if k == "cpy":
            return [self.note(st, "raw copy") for st in states]
        return states

    def _place_ty(self, f, place):
        ti = f["locals"][place[0]]
        for e in place[1]:
            if e[0] == "d":
                t = self.p.types[ti]
                if "e" in t:
                    ti = t["e"]
                elif t["k"] == "adt" and t["path"] == "std::boxed::Box":
                    ti = t["args"][0]
            elif e[0] == "f":
                ti = e[2]
            elif e[0] in ("i", "ci"):
                t = self.p.types[ti]
                ti = t.get("e", ti)
        return ti

    def operand_ty(self, f, o):
        if o[0] in ("c", "m"):
            return self._place_ty(f, o[1])
        if o[0] == "k":
            return o[1]["t"]
        return None

    def _term(self, key, f, d, st, t, bb, live):
        k = t[0]
        if k == "goto":
            return [(t[1], st, None)]
        if k == "ret":
            v = st.mem.get(("L", d, 0), UNIT)
            return [("ret", st, v)]
        if k == "switch":
            v = self.op(st, d, t[1])
            return self._switch(st, v, t)
        if k == "drop":
            return self._drop(st, d, f, t)
        if k == "assert":
            v = self.op(st, d, t[1])
            out = []
            for s, b in self.to_bool(st, v):
                if b == bool(t[2]):
                    out.append((t[4], s, None))
                else:
                    self.panic(s, key, "assert " + str(t[3]), t[5])
            return out
        if k == "call":
            return self._call(key, f, d, st, t, bb, live)
        if k == "unreachable":
            return []
        return []

    def panic(self, st, key, msg, line=None):
        f = self.p.fns.get(key, {})
        chain = [x for x in self.stack if self.p.fns[x].get("local")]
        self.panics.append({"fn": f.get("path", key), "msg": msg, "line": line, "chain": chain, "taint": st.taint, "ev": st.ev, "org": st.org,
                            "file": f.get("file")})

    def _drop(self, st, d, f, t):
        return [(t[2], st, None)]

    def _switch(self, st, v, t):
        targets, other = t[3], t[4]
        if v[0] == "b":
            v = C(int(v[1]))
        if v[0] == "ord":
            v = C(v[1])
        if is_const(v):
            n = v[1]
            for val, b in targets:
                if int(val) == n or (n < 0 and int(val) & 0xff == n & 0xff):
                    return [(b, st, None)]
            return [(other, st, None)]
        out = []
        if is_int(v):
            cur = st
            for val, b in targets:
                s = cur.copy()
                n = int(val)
                m = cur.F.get_mask(v)
                if not any(x <= n <= y for x, y in m):
                    continue
                if s.F.assume_eq(v, C(n)):
                    out.append((b, s, None))
                c2 = cur.copy()
                if not c2.F.assume_ne(v, C(n)):
                    cur = None
                    break
                cur = c2
            if cur is not None:
                out.append((other, cur, None))
            return out
        seen = set()
        for b in [b for _, b in targets] + [other]:
            if b in seen:
                continue
            seen.add(b)
            s = st.copy()
            self.note(s, "branch on unknown (%s)" % (v[1] if len(v) > 1 and isinstance(v[1], str) else v[0]))
            out.append((b, s, None))
        return out

    def _call(self, key, f, d, st, t, bb, live):
        cal, aops, dest, target, line = t[1], t[2], t[3], t[4], t[5]
        args = [self.op(st, d, a) for a in aops]
        atys = t[6] if len(t) > 6 else []
        dty = t[7] if len(t) > 7 else None
        # values moved out or dead after the call need not be kept by the callee's analysis
        if target is not None:
            lv = live[target]
            _, _, taken = self.p.cfg(key)
            keep_dest = dest[0] if dest[1] else None
            for c in [c for c in st.mem if c[0] == "L" and c[1] == d and c[2] not in lv and c[2] not in taken and c[2] != keep_dest]:
                if not self._used_in_place(c[2], dest):
                    del st.mem[c]
        outs = self.call(st, cal, args, atys, dty, key, line)
        if target is None:
            return []
        res = []
        for s, v in outs:
            if not dest[1]:
                s.mem[("L", d, dest[0])] = v
            else:
                c = self.loc(s, d, dest, None)
                if c[0] == "loc":
                    self.write(s, c[1], c[2], v)
            res.append((target, s, None))
        return res

    def _used_in_place(self, l, place):
        return any(e[0] == "i" and e[1] == l for e in place[1])

    def call(self, st, cal, args, atys, dty, caller=None, line=None):
        """[(state, value)] of a call."""
        if cal.get("kind") == "indirect":
            fv = self.op(st, self.depth, cal["op"]) if "op" in cal else ("top",)
            return self.call_value(st, fv, args, dty)
        if self.on_call is not None:
            r = self.on_call(self, st, cal, args, atys, dty, caller, line)
            if r is not None:
                return r
        k = cal.get("key")
        if k is not None and k in self.cuts:
            r = self.cuts[k](self, st, k, args, atys, dty)
            if r is not None:
                return r
        r = self.models.dispatch(st, cal, args, atys, dty, caller, line)
        if r is not None:
            return r
        if cal.get("path", "").split("::")[-1] in ("call", "call_mut", "call_once") and len(args) == 2 and args[1][0] == "tup":
            return self.call_value(st, args[0], list(args[1][1]), dty)
        if k is not None and k in self.p.fns and not self.p.fns[k].get("failed"):
            if self.stack.count(k) >= 2 or (k in self.stack and k in self.p.scc_cut()):
                return self.recursion(st, k, args, atys, dty)
            return self.run_fn(k, args, st)
        return self.unknown(st, cal, args, atys, dty)

    def recursion(self, st, k, args, atys, dty):
        self.note(st, "recursion through " + self.p.fns[k]["path"])
        return self.havoc(st, args, atys, dty)

    def unknown(self, st, cal, args, atys, dty):
        self.note(st, "unmodelled call " + (cal.get("rpath") or cal.get("path") or cal.get("kind")))
        return self.havoc(st, args, atys, dty)

    def emit(self, st, text, lossy, x):
        """Text reaches the output. [(state, written without error)]"""
        out = []
        if self.io_err:
            s = st.copy()
            s.ev = s.ev + (("fail",),)
            if self.on_fail is not None:
                self.on_fail(self, s)
            out.append((s, False))
        if self.on_emit is not None:
            r = self.on_emit(self, st, text, lossy, x)
            if r is not None:
                return r + out
        st.ev = st.ev + (("wl" if lossy else "w", text),)
        return [(st, True)] + out

    def havoc(self, st, args, atys, dty):
        for a, ti in zip(args, atys):
            t = self.p.types[ti]
            if t["k"] == "ref" and t.get("mut") and a[0] == "ref":
                self.write(st, a[1], a[2], ("top", "havoc"))
        return [(st, self.any_of(st, dty))]

    def any_of(self, st, dty):
        if dty is None:
            return ("top", "?")
        t = self.p.types[dty]
        if t["k"] in ("uint", "int", "bool", "char"):
            return self.ofty(st, dty)
        if t["k"] == "tuple" and not t["f"]:
            return UNIT
        if t["k"] == "adt" and t["ak"] == "enum" and "v" in t:
            return ("sym", ("any", next(dom._counter)), dty)
        return ("top", "any")

    def call_value(self, st, fv, args, dty):
        """Call a function value (closure, function item, function pointer)."""
        fv0 = fv
        while fv[0] in ("ref", "cref"):
            if fv[0] == "cref":
                fv = fv[1]
            else:
                fv = self.read(st, fv[1], fv[2])
        if fv[0] == "clo":
            k = fv[1]
            if k in self.p.fns:
                f = self.p.fns[k]
                selfv = fv
                if f["n_args"] >= 1:
                    t0 = self.p.types[f["locals"][1]]
                    if t0["k"] in ("ref", "ptr"):
                        if fv0[0] in ("ref",):
                            # the innermost reference to the closure
                            r = fv0
                            while True:
                                x = self.read(st, r[1], r[2])
                                if x[0] == "ref":
                                    r = x
                                else:
                                    break
                            selfv = r
                        else:
                            cell = ("T", next(dom._counter))
                            st.mem[cell] = fv
                            selfv = ("ref", cell, ())
                if f.get("spread") is not None:
                    return self.run_fn(k, [selfv, ("tup", tuple(args))], st)
                return self.run_fn(k, [selfv] + list(args), st)
            self.note(st, "closure without body")
            return [(st, self.any_of(st, dty))]
        if fv[0] == "fn":
            info = dict(fv[1])
            cal = {"path": info.get("path") or info.get("fn"), "kind": "item"}
            if info.get("key"):
                cal["key"] = info["key"]
            cal["rpath"] = info.get("rpath") or info.get("fn") or info.get("path")
            cal["full"] = info.get("full") or cal["rpath"]
            cal["args"] = self.p.types[fv[2]].get("args", [])
            cal["rargs"] = cal["args"]
            t = self.p.types[fv[2]]
            r = self.models.ctor(st, t, args, dty)
            if r is not None:
                return r
            return self.call(st, cal, args, [None] * 0, dty)
        self.note(st, "call of unknown function value")
        return [(st, self.any_of(st, dty))]

def _freeze(v):
    out = []
    for k, x in sorted(v.items()):
        if isinstance(x, (dict, list)):
            continue
        out.append((k, x))
    return tuple(out)

def any_names(v, out):
    if type(v) is tuple:
        if len(v) >= 2 and v[0] == "any":
            out.add(v[:2])
        for x in v:
            if type(x) is tuple:
                any_names(x, out)

def fact_syms(F):
    """Symbols occurring in what is known about texts and lists."""
    out = set()
    for x in (F.byte, F.eqs, F.var, F.misc):
        for k in x:
            syms_of(k, out)
    syms_of(F.segs, out)
    return out
