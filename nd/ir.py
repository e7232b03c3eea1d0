"""The dumped program: functions, types, control-flow helpers."""
from . import extract

class Prog:
    def __init__(self, d):
        self.d = d
        self.types = d["types"]
        canonical(self.types)
        self.fns = d["fns"]
        self.items = d["items"]
        self.roots = d["roots"]
        self.item = {}
        for it in self.items:
            self.item.setdefault(it["path"], it)
        self._cfg = {}
        self._loops = {}
        self._joins = {}
        self._tyname = {t["s"]: i for i, t in enumerate(self.types)}

    # ---- types
    def ty(self, i):
        return self.types[i]

    def tname(self, i):
        return self.types[i]["s"]

    def find_ty(self, s):
        return self._tyname.get(s)

    def adt_path(self, i):
        t = self.types[i]
        return t.get("path") if t["k"] == "adt" else None

    def peel(self, i):
        """Strip references."""
        while self.types[i]["k"] in ("ref", "ptr"):
            i = self.types[i]["e"]
        return i

    def option_of(self, ity):
        """Type index of Option<ity>."""
        c = self._opt = getattr(self, "_opt", {})
        if ity not in c:
            for i, t in enumerate(self.types):
                if t["k"] == "adt" and t.get("path", "").endswith("option::Option") and t.get("args") == [ity] and "v" in t:
                    c[ity] = i
                    break
            else:
                self.types.append({"s": "std::option::Option<%s>" % self.tname(ity), "k": "adt", "path": "std::option::Option", "local": False, "args": [ity], "ak": "enum",
                                   "v": [{"name": "None", "discr": 0, "f": []}, {"name": "Some", "discr": 1, "f": [["0", ity]]}]})
                c[ity] = len(self.types) - 1
        return c[ity]

    def search_loop(self, how, ity, rty):
        """Body of the loop a searching iterator method stands for: next, call, test."""
        key = "nd::%s<%d,%d>" % (how, ity, rty)
        if key in self.fns:
            return key
        B, U = self.find_ty("bool"), self.find_ty("usize")
        opt = self.option_of(ity)
        # 0 result, 1 iterator, 2.. function (after the start value when folding), then temporaries
        nargs = 3 if how == "fold" else 2
        FN = nargs
        OPT, D, IT, R, CNT, RD = [nargs + 1 + i for i in range(6)]
        rt = B if how in ("all", "any", "position", "find") else rty
        acc = 2 if how == "fold" else None
        locs = [rty] + [U] * nargs + [opt, U, ity, rt, U, U]
        pl = lambda l, *pr: [l, list(pr)]
        cp = lambda l: ["c", pl(l)]
        num = lambda v, t: ["k", {"t": t, "v": {"int": v}}]
        asg = lambda l, rv: ["=", pl(l), rv, 0]
        call = lambda name, args, tys, dest, dty, to: ["call", {"path": name, "full": name, "args": [], "kind": "item"}, args, pl(dest), to, 0, tys, dty, None]
        agg = lambda var, *ops: ["agg", "adt", rty, var, list(ops)]
        arg = cp(IT)
        if how == "find":
            locs.append(U)
            locs[OPT + 6] = U
        bbs = [None] * 7
        bbs[0] = [[asg(CNT, ["use", num(0, U)])], ["goto", 1]]
        bbs[1] = [[], call("nd::next", [cp(1)], [U], OPT, opt, 2)]
        bbs[2] = [[asg(D, ["discr", pl(OPT), U])], ["switch", cp(D), U, [[0, 3]], 4, 0]]
        done = {"all": ["use", num(1, B)], "any": ["use", num(0, B)], "fold": ["use", ["m", pl(2)]], "for_each": None}.get(how, agg(0))
        bbs[3] = [[asg(0, done)] if done else [], ["ret"]]
        pre = [asg(IT, ["use", ["m", pl(OPT, ["v", 1], ["f", 0, ity])]])]
        if how == "find":
            pre.append(asg(OPT + 6, ["ref", "shared", pl(IT)]))
            arg = cp(OPT + 6)
        args = [cp(FN)] + ([["m", pl(2)]] if acc else []) + [arg if how == "find" else ["m", pl(IT)]]
        bbs[4] = [pre, call("nd::call", args, [U] * len(args), 2 if acc else R, rt, 5)]
        hit = {"all": ["use", num(0, B)], "any": ["use", num(1, B)], "position": agg(1, cp(CNT)), "find": agg(1, ["m", pl(IT)]), "find_map": ["use", ["m", pl(R)]]}.get(how)
        if how in ("for_each", "fold"):
            bbs[5] = [[], ["goto", 1]]
        elif how == "find_map":
            bbs[5] = [[asg(RD, ["discr", pl(R), U])], ["switch", cp(RD), U, [[0, 1]], 6, 0]]
        else:
            bbs[5] = [[asg(CNT, ["bin", "Add", cp(CNT), num(1, U), U])] if how == "position" else [], ["switch", cp(R), B, [[0, 6 if how == "all" else 1]], 1 if how == "all" else 6, 0]]
            if how == "position":
                hit = agg(1, cp(RD))
                bbs[4][0].append(asg(RD, ["use", cp(CNT)]))
        if hit:
            bbs[6] = [[asg(0, hit)], ["ret"]]
        self.fns[key] = {"key": key, "path": key, "local": False, "shim": True, "closure": False, "file": "", "line": 0, "args": [], "n_args": nargs, "locals": locs, "names": [], "bbs": bbs}
        return key

    # ---- functions
    def fn(self, key):
        return self.fns[key]

    def local_fns(self):
        return {k: f for k, f in self.fns.items() if f.get("local") and not f.get("failed")}

    def by_path(self, path):
        return [k for k, f in self.fns.items() if f.get("path") == path and not f.get("failed")]

    def calls(self, f):
        for bi, b in enumerate(f["bbs"]):
            if b and b[1][0] == "call":
                yield bi, b[1]

    def succs(self, term):
        k = term[0]
        if k == "goto":
            return [term[1]]
        if k == "switch":
            return [x[1] for x in term[3]] + [term[4]]
        if k == "drop":
            return [term[2]]
        if k == "assert":
            return [term[4]]
        if k == "call":
            return [term[4]] if term[4] is not None else []
        return []

    def loops(self, key):
        """Loop head -> heads of the loops inside its natural loop."""
        if key not in self._loops:
            f = self.fns[key]
            heads = self.cfg(key)[0]
            n = len(f["bbs"])
            succ = [self.succs(b[1]) if b else [] for b in f["bbs"]]
            pred = [[] for _ in range(n)]
            for u in range(n):
                for v in succ[u]:
                    pred[v].append(u)
            def reach(start, cut):
                seen, todo = {start}, [start]
                while todo:
                    for v in succ[todo.pop()]:
                        if v != cut and v not in seen:
                            seen.add(v)
                            todo.append(v)
                return seen
            out = {}
            for h in heads:
                body, todo = {h}, []
                free = reach(0, h) if h else set()       # reachable without passing h
                for u in pred[h]:
                    if u not in free:
                        todo.append(u)
                while todo:
                    u = todo.pop()
                    if u not in body:
                        body.add(u)
                        todo += pred[u]
                out[h] = {o for o in heads if o in body and o != h}
            self._loops[key] = out
        return self._loops[key]

    def cfg(self, key):
        """(loop heads, live-in locals per block, address-taken locals) of a function."""
        if key in self._cfg:
            return self._cfg[key]
        f = self.fns[key]
        bbs = f["bbs"]
        n = len(bbs)
        succ = [self.succs(b[1]) if b else [] for b in bbs]
        # loop heads: targets of DFS back edges
        heads, color = set(), [0] * n
        st = [(0, iter(succ[0]))]
        color[0] = 1
        while st:
            u, it = st[-1]
            for v in it:
                if color[v] == 0:
                    color[v] = 1
                    st.append((v, iter(succ[v])))
                    break
                if color[v] == 1:
                    heads.add(v)
            else:
                color[u] = 2
                st.pop()
        # liveness
        use = [set() for _ in range(n)]
        defs = [set() for _ in range(n)]
        taken = set()
        def place_uses(p, u, d):
            for e in p[1]:
                if e[0] == "i" and e[1] not in d:
                    u.add(e[1])
        def rd(p, u, d):
            if p[0] not in d:
                u.add(p[0])
            place_uses(p, u, d)
        def op(o, u, d):
            if o[0] in ("c", "m"):
                rd(o[1], u, d)
        def wr(p, u, d):
            if p[1]:
                rd(p, u, d)
            else:
                d.add(p[0])
        def rv(r, u, d):
            k = r[0]
            if k == "use": op(r[1], u, d)
            elif k == "rep": op(r[1], u, d)
            elif k == "ref":
                rd(r[2], u, d)
                if not any(e[0] == "d" for e in r[2][1]):
                    taken.add(r[2][0])
            elif k == "cast": op(r[2], u, d)
            elif k == "bin": op(r[2], u, d); op(r[3], u, d)
            elif k == "un": op(r[2], u, d)
            elif k == "discr": rd(r[1], u, d)
            elif k == "agg":
                for o in r[4]: op(o, u, d)
        for i, b in enumerate(bbs):
            if not b: continue
            u, d = use[i], defs[i]
            for s in b[0]:
                if s[0] == "=":
                    rv(s[2], u, d); wr(s[1], u, d)
                elif s[0] == "sd":
                    rd(s[1], u, d)
                elif s[0] == "assume":
                    op(s[1], u, d)
            t = b[1]
            if t[0] == "switch": op(t[1], u, d)
            elif t[0] == "assert": op(t[1], u, d)
            elif t[0] == "call":
                if t[1].get("kind") == "indirect": op(t[1]["op"], u, d)
                for a in t[2]: op(a, u, d)
                wr(t[3], u, d)
            elif t[0] == "drop":
                pass
            elif t[0] == "ret":
                if 0 not in d: u.add(0)
        live = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for i in range(n - 1, -1, -1):
                if not bbs[i]: continue
                o = set()
                for v in succ[i]:
                    o |= live[v]
                new = use[i] | (o - defs[i])
                if new != live[i]:
                    live[i] = new
                    ch = True
        r = (heads, live, taken)
        self._cfg[key] = r
        return r

    def scc_cut(self):
        """Functions on a cycle of the call graph."""
        if hasattr(self, "_scc"):
            return self._scc
        import networkx as nx
        g = nx.DiGraph()
        for k, f in self.fns.items():
            if f.get("failed"):
                continue
            for _, t in self.calls(f):
                c = t[1].get("key")
                if c in self.fns:
                    g.add_edge(k, c)
            for b in f["bbs"]:
                for s in (b[0] if b else []):
                    if s[0] == "=" and s[2][0] == "agg" and s[2][1] == "closure" and len(s[2]) > 5 and s[2][5] in self.fns:
                        g.add_edge(k, s[2][5])
        self.graph = g
        self._scc = {k for c in nx.strongly_connected_components(g) for k in c if len(c) > 1 or g.has_edge(k, k)}
        return self._scc

    def heavy(self):
        """Functions that reach a loop."""
        if not hasattr(self, "_heavy"):
            self.scc_cut()
            rev, todo = {}, []
            for a, b in self.graph.edges:
                rev.setdefault(b, []).append(a)
            seen = set()
            for k, f in self.fns.items():
                if not f.get("failed") and self.cfg(k)[0]:
                    seen.add(k)
            seen |= self.scc_cut()
            todo = list(seen)
            while todo:
                for a in rev.get(todo.pop(), ()):
                    if a not in seen:
                        seen.add(a)
                        todo.append(a)
            self._heavy = seen
        return self._heavy

    def joins(self, key, rec=False):
        """Blocks that end in a call of a function with a loop -> their place in reverse postorder."""
        if key not in self._joins:
            f = self.fns[key]
            heads = self.cfg(key)[0]
            hv = self.heavy()
            succ = [self.succs(b[1]) if b else [] for b in f["bbs"]]
            seen, order, st = {0}, [], [(0, iter(succ[0]))]
            while st:
                u, it = st[-1]
                for v in it:
                    if v not in seen:
                        seen.add(v)
                        st.append((v, iter(succ[v])))
                        break
                else:
                    order.append(u)
                    st.pop()
            order.reverse()
            out = {}
            for i, u in enumerate(order):
                b = f["bbs"][u]
                if u and b and u not in heads and b[1][0] == "call" and (b[1][1].get("key") in hv or b[1][1].get("kind") == "virtual"):
                    out[u] = i, b[1][1].get("key") in self.scc_cut()
            self._joins[key] = out
        return {u: i for u, (i, r) in self._joins[key].items() if r or not rec}

_progs = {}
# Private fields are told apart by their types; the analyses use one name for each of them.
CANON = {
    "Entry": [("raw", lambda s: s.endswith("::Raw")), ("layout", lambda s: s.endswith("::Layout"))],
    "Layout": [("prefix", lambda s: s.endswith("::StringId")), ("parent", lambda s: "Option<" in s and s.endswith("::Id>"))],
    "Mapping": [("items", lambda s: "Vec<" in s and "::Id>" in s), ("indent", lambda s: s == "usize"), ("kind", lambda s: s.endswith("::MappingKind"))],
    "Sequence": [("items", lambda s: "Vec<" in s and "::Id>" in s), ("indent", lambda s: s == "usize"), ("kind", lambda s: s.endswith("::SequenceKind"))],
    "MappingItem": [("key", lambda s: s.endswith("raw::String")), ("value", lambda s: s.endswith("::Id"))],
    "SequenceItem": [("value", lambda s: s.endswith("::Id"))],
    "Number": [("string", lambda s: s.endswith("::StringId")), ("hint", lambda s: s.endswith("Hint"))],
    "Boolean": [("value", lambda s: s == "bool"), ("string", lambda s: s.endswith("::StringId"))],
    "Inline": [("trailing", lambda s: s == "bool"), ("suffix", lambda s: s.endswith("::StringId"))],
    "Document": [("suffix", lambda s: s.endswith("::StringId")), ("root", lambda s: s.endswith("::Id")), ("data", lambda s: s.endswith("::Data"))],
    "Data": [("strings", lambda s: "Map<" in s), ("slab", lambda s: "Slab<" in s)],
}
VIEW = [("id", lambda s: s.endswith("::Id")), ("data", lambda s: s.startswith("&") and s.endswith("::Data")), ("raw", lambda s: s.startswith("&") and "::raw::" in s)]

def canonical(types):
    """Give the private fields the names the analyses use, wherever exactly one field has the expected type."""
    for t in types:
        if t["k"] != "adt" or not t.get("path", "").startswith("nondestructive::") or "v" not in t:
            continue
        n = t["path"].split("::")[-1]
        for v in t["v"]:
            view = t.get("ak") != "enum" and len(v["f"]) == 2 and any(types[x]["k"] == "ref" and types[x]["s"].endswith("::Data") for _, x in v["f"])
            rules = VIEW if view else CANON.get(n if t.get("ak") != "enum" else v["name"], ())
            for name, want in rules:
                hit = [f for f in v["f"] if want(types[f[1]]["s"])]
                if len(hit) == 1 and hit[0][0] != name and not any(f[0] == name for f in v["f"]):
                    hit[0][0] = name

def load(fs="all"):
    p = extract.dump(fs)
    if p not in _progs:
        _progs[p] = Prog(extract.load(fs))
    return _progs[p]
