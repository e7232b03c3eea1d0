"""Interpreter over symbolic documents: the heap behind a view is a well-formed tree.

What is assumed of the document an operation starts from (and is what C15 checks operations to keep):
an id held by a view is that of an existing entry of the right kind; the ids listed by a mapping or
sequence are mapping/sequence item entries whose parent is that container; the value of an item is
not itself an item and its parent is that item; distinct places hold distinct ids."""
from .interp import *
from .dom import *

DATA = "nondestructive::yaml::data::Data"

DROPS = ("G", "drops", 0)   # list of the nodes released so far, in order

class Tree(Interp):
    def __init__(self, prog, limit_s=60, **kw):
        super().__init__(prog, limit_s, **kw)
        self.keep_rigid = True
        self.cuts.update({k: Tree.cut_drop for k in drop_fns(prog)})
        self.roots = (DROPS,)
        self.views = {}         # origin name of a view's id -> set of allowed variant names, or None

    # ---- roles
    def role(self, idx):
        s = mono(idx)
        o = self.origin.get(s) if s else None
        if o is None:
            return None
        b = tuple(x for x in o if not (type(x) is tuple and len(x) == 2 and x[0] == "at"))
        if b in self.views:
            return ("view", self.views[b], o)
        if o and o[0] == "E" and len(o) > 2:
            r = o[2:]
            if r[0] == "raw" and "items" in r:
                return ("item", r[1], o[1])
            if r[0] == "raw" and "value" in r:
                return ("value", r[1], o[1])
            if r[:2] == ("layout", "parent"):
                return ("parent", None, o[1])
        if o and o[-2:-1] == ("root",) or "root" in o:
            return ("root", None, o)
        return ("free", None, o)

    def _entry_name(self, name):
        return type(name) is tuple and len(name) >= 3 and name[0] == "E" and is_int(name[1])

    def allowed(self, st, name, ti):
        """Variant names possible for a lazily known enum, or None for all."""
        if not self._entry_name(name):
            return None
        idx = name[1]
        r = self.role(idx)
        if name[2:] == ("raw",):
            if r is None:
                return None
            if r[0] == "item":
                return {r[1] + "Item"}
            if r[0] in ("value", "root", "free"):
                return self._values(ti)
            if r[0] == "view":
                return r[1] or self._values(ti)
            if r[0] == "parent":
                c = self.role(r[2])
                if c is not None and c[0] == "parent":
                    # the parent of an item: the container of its kind
                    v = st.F.var.get(("E", r[2], "raw"))
                    if v is not None:
                        return {self.p.types[ti]["v"][v]["name"][:-4]}
                    return {"Mapping", "Sequence"}
                if c is not None and c[0] == "view" and c[1] and all(x.endswith("Item") for x in c[1]):
                    return {x[:-4] for x in c[1]}
                return {"MappingItem", "SequenceItem"}
        if name[2:] == ("layout", "parent"):
            if r is not None and (r[0] in ("item", "value")):
                return {"Some"}
            if r is not None and r[0] == "parent":
                c = self.role(r[2])
                if c is None or c[0] != "parent":
                    return {"Some"}
            if r is not None and r[0] == "root":
                return {"None"}
        return None

    def _values(self, ti):
        return {v["name"] for v in self.p.types[ti]["v"] if not v["name"].endswith("Item")}

    def fork_variant(self, st, v):
        if v[0] == "sym" and v[1] not in st.F.var:
            t = self.p.types[v[2]]
            if t["k"] == "adt" and t.get("ak") == "enum" and "v" in t:
                a = self.allowed(st, v[1], v[2])
                if a is not None:
                    out = []
                    for i, x in enumerate(t["v"]):
                        if x["name"] in a:
                            s = st.copy()
                            s.F.var[v[1]] = i
                            out.append((s, self.expand(s, v)))
                    return out
        return super().fork_variant(st, v)

    def sym(self, st, name, ty, kind="z", mask=None):
        if kind == "id" and self._entry_name(name):
            r = self.role(name[1])
            if name[2:4] == ("layout", "parent") and r is not None and r[0] in ("item", "value"):
                return addc(r[2], 1)
            if name[2] == "raw" and "value" in name and r is not None and r[0] == "parent":
                c = self.role(r[2])
                if c is not None and c[0] != "parent":
                    return addc(r[2], 1)
        return super().sym(st, name, ty, kind, mask)

    def start(self):
        st = St()
        st.mem[DROPS] = ("list", ())
        return st

    def drops(self, st):
        return st.mem.get(DROPS, ("list", ()))

    # ---- releasing a subtree
    def cut_drop(self, st, k, args, atys, dty):
        """Contract of the recursive release: everything below the node is given up (checked on its own)."""
        f = self.p.fns[k]
        for a, ti in zip(args[1:], f["locals"][2:]):
            t = self.p.types[ti]
            a = self.models.deref(st, a)
            if t.get("path", "").endswith("::Id"):
                i = self.idof(st, a)
                if i is None:
                    self.note(st, "release of an unknown node")
                else:
                    st.ev = st.ev + (("drop", i),)
                    v = st.mem.get(DROPS, ("list", ()))
                    if v[0] == "list":
                        w = self.models.lnorm(st, ("list", v[1] + (("el", a),)))
                        if len(w[1]) > len(v[1]) and v[1]:      # released back to front: the order does not matter
                            u = self.models.lnorm(st, ("list", v[1][:-1] + (("el", a), v[1][-1])))
                            w = u if len(u[1]) < len(w[1]) else w
                        v = w
                    st.mem[DROPS] = v
                    cell = self.models.entry_cell(st, addc(i, -1))
                    if self.models.gone(st, cell):
                        continue
                    st.mem[cell] = ("gone",)
                    st.dirty = st.dirty | {cell}
            else:
                st.ev = st.ev + (("dropraw", self.expand(st, a)),)
        return [(st, UNIT)]

    def idof(self, st, v):
        for _ in range(8):
            v = self.models.deref(st, v)
            if v[0] == "sym":
                v = self.expand(st, v)
            if v[0] == "adt" and len(v[3]) == 1:
                v = v[3][0]
        return v if is_int(v) else None

    # ---- reading results
    def data_cell(self, name, ti):
        return ("P", name, ti)

    def vname(self, st, idx):
        """Variant name of the entry at idx, if known."""
        v = st.mem.get(("E", idx))
        if v is not None and v[0] == "adt":
            raw = self._field(st, v, "raw")
            if raw is not None and raw[0] == "adt":
                return self.p.types[raw[1]]["v"][raw[2]]["name"]
        i = st.F.var.get(("E", idx, "raw"))
        if i is None:
            return None
        ti = self._raw_ty()
        return self.p.types[ti]["v"][i]["name"]

    def _raw_ty(self):
        e = self.p.types[self.entry_ty()]
        return [f[1] for f in e["v"][0]["f"] if f[0] == "raw"][0]

    def _field(self, st, v, name):
        v = self.models.deref(st, v)
        if v[0] == "adt":
            for (n, _), x in zip(self.p.types[v[1]]["v"][v[2]]["f"], v[3]):
                if n == name:
                    return self.expand(st, x)
        return None

    def tyn(self, v):
        return self.p.types[v[1]]["path"].split("::")[-1]

    def variant(self, v):
        return self.p.types[v[1]]["v"][v[2]]["name"]

def drop_fns(p):
    """Functions that release a subtree: on a cycle of the call graph, taking the store and a node."""
    out = []
    for k in p.scc_cut():
        f = p.fns[k]
        if not f.get("local") or f.get("closure"):
            continue
        a = [p.types[t] for t in f["locals"][1:f["n_args"] + 1]]
        r = p.types[f["locals"][0]]
        if len(a) == 2 and a[0]["k"] == "ref" and a[0].get("mut") and p.types[a[0]["e"]].get("path", "").endswith("::Data") \
           and a[1].get("path", "").split("::")[-1] in ("Id", "Raw") and r["k"] == "tuple" and not r.get("f"):
            out.append(k)
    return out

def pub_methods(p, ty):
    """Keys of the dumped bodies of the methods of a type given by path (generic signature instance)."""
    out = {}
    for k, f in p.fns.items():
        if not f.get("local") or f.get("failed") or f.get("closure"):
            continue
        path = f["path"]
        if path.startswith(ty + "::<") or path.startswith(ty + "::"):
            m = path.split("::")[-1]
            if m not in out or len(k) < len(out[m]) or "'a>" in k and False:
                out[m] = k
    return out
