"""What parsing keeps of its input: every node's text is a piece of the input, and the pieces lie end to end.

The recursive parser is interpreted one level deep. A nested value is described by a contract, which the same
run checks for the outer value: parsing at position n0 a value whose prefix is input[p..n0) ends at a position
n1 >= n0 and yields a node whose text (prefix and body, as the writer puts them) is input[p..q), q <= n1; the
bytes input[q..n1) are handed back as the text that follows, and if nothing is handed back then q = n1.

While a container is read, a ghost remembers which part of the input the items so far cover, and in which form
(with commas, or on lines of their own)."""
from . import ir, lib
from .interp import *
from .dom import *
from .tree import Tree

TILE = ("G", "tile", 0)         # items of the container being read: covered part of the input and form
INIT = ("G", "init", 0)         # where the value being read starts
PEND = ("G", "pend", 0)         # items pushed and not yet accounted for
EMPTY = ("bytes", ())

class Roles:
    """The parser's parts, told apart by their types."""

    def __init__(self, p):
        self.p = p
        self.why = None
        p.scc_cut()
        self.entry = None
        cand = []
        for k in p.scc_cut():
            f = p.fns[k]
            if not f.get("local") or f.get("closure") or not f["n_args"]:
                continue
            if any(self.parser_ty(t) is not None for t in f["locals"][1:f["n_args"] + 1]) and self.result_ty(f["locals"][0]):
                cand.append(k)
        # the entry is the function of the cycle that is called from outside it
        import networkx as nx
        comp = {}
        for c in nx.strongly_connected_components(p.graph):
            for k in c:
                comp[k] = c
        at = lambda k: (p.fns[k]["file"], p.fns[k]["line"])
        def outside(k):
            own = {at(x) for x in comp[k]}      # a function may have a second copy that nothing calls
            return [a for a in p.graph.predecessors(k) if at(a) not in own]
        ent = [k for k in cand if outside(k)]
        self.scc = comp.get(ent[0], set()) if ent else set()
        if len(ent) == 1:
            self.entry = ent[0]
        else:
            self.why = "no single entry of the recursive parser found (%d)" % len(ent)
            return
        # without the entry nothing may be left of the cycle
        g = p.graph.subgraph(self.scc - {self.entry})
        self.more = sorted(k for c in nx.strongly_connected_components(g) for k in c if len(c) > 1 or g.has_edge(k, k))
        f = p.fns[self.entry]
        self.pargs = [i for i, t in enumerate(f["locals"][1:f["n_args"] + 1]) if self.parser_ty(t) is not None]
        self.pty = self.parser_ty(f["locals"][1 + self.pargs[0]])
        self.fields = self.parser_fields(self.pty)
        self.callers = outside(self.entry)

    def parser_ty(self, ti):
        t = self.p.types[ti]
        if t["k"] == "ref":
            return self.parser_ty(t["e"]) if t.get("mut") else None
        return ti if self.parser_fields(ti) else None

    def parser_fields(self, ti):
        t = self.p.types[ti]
        if t["k"] != "adt" or t.get("ak") != "struct" or not t.get("local") or "v" not in t:
            return None
        inp, n, scr = [], [], []
        for i, (_, ft) in enumerate(t["v"][0]["f"]):
            x = self.p.types[ft]
            if x["k"] == "ref" and x["s"].endswith("[u8]"):
                inp.append(i)
            elif x["s"] == "usize":
                n.append(i)
            elif x["s"].endswith("Vec<u8>"):
                scr.append(i)
        if len(inp) == 1 and len(n) == 1 and len(scr) <= 1:
            return {"input": inp[0], "n": n[0], "scratch": scr[0] if scr else None}
        return None

    def result_ty(self, ti):
        """Result of (node, text that follows or nothing)."""
        t = self.p.types[ti]
        if t["k"] != "adt" or not t["path"].endswith("::Result") or "v" not in t:
            return False
        ok = self.p.types[t["v"][0]["f"][0][1]]
        fs = ok.get("f", []) if ok["k"] == "tuple" else [x[1] for x in ok["v"][0]["f"]] if ok["k"] == "adt" and ok.get("ak") == "struct" and "v" in ok else []
        n = sorted(self.p.types[x]["s"].split("::")[-1].rstrip(">") for x in fs)
        return n == ["Id", "StringId"]

def ids_in(I, st, v):
    if v[0] == "adt":
        i = I.idof(st, v)
        if i is not None:
            yield i
        else:
            for x in v[3]:
                yield from ids_in(I, st, x)

class Tile:
    """One run of the parser, or of the function around it."""

    def __init__(self, p, roles, limit=300):
        self.p, self.R = p, roles
        self.I = I = Tree(p, limit_s=limit)
        I.io_err = False
        I.roots = I.roots + (TILE, PEND, INIT)
        I.cuts[roles.entry] = self.contract
        I.on_push = self.push
        I.at_head = self.flush
        I.split = self.split
        I.at_return = self.leave
        I.merge_returns = 2
        I.shape_var = lambda k: not (type(k) is tuple and k and k[0] in self.given)
        self.given = ()
        I.merge_calls = {k: k == roles.entry for k in roles.scc}
        self.obl = {}           # (rule, key) -> [ok, bad, unknown, text]
        self.calls = 0
        self.cell = None

    # ---- obligations
    def need(self, st, rule, key, ok, text):
        ok = None if ok is None else bool(ok)
        r = self.obl.setdefault((rule, key), [0, 0, 0, text])
        if ok is True:
            r[0] += 1
        elif ok is False and not st.taint:
            r[1] += 1
            r[3] = text
        else:
            r[2] += 1
        return ok

    def leave(self, key, st, v):
        """Texts other than parts of the input are not told apart."""
        def go(v):
            if v[0] == "adt":
                fs = [go(x) for x in v[3]]
                var = self.p.types[v[1]]["v"][v[2]]
                ns = [n for n, _ in var["f"]]
                if "original" in ns and "kind" in ns and "id" in ns:
                    k = fs[ns.index("kind")]
                    if k[0] == "adt" and self.p.types[k[1]]["v"][k[2]]["name"] in ("Original", "Multiline"):
                        i = ns.index("id")
                        if fs[i][0] == "adt" and fs[i][3][0][0] == "hash":
                            fs[i] = ("adt", fs[i][1], 0, (("hash", ("bytes", (("any", "decoded"),))),))
                return ("adt", v[1], v[2], tuple(fs))
            if v[0] == "tup":
                return ("tup", tuple(go(x) for x in v[1]))
            if v[0] == "hash" and v[1] != EMPTY and v[1][0] == "bytes" and not (len(v[1][1]) == 1 and (v[1][1][0][0] == "sub" or v[1][1][0][0] == "lit" and len(v[1][1][0][1]) <= 16)):
                return ("hash", ("bytes", (("any", "decoded"),)))
            return v
        return go(v)

    # ---- the parser's state
    def parser(self, st, cell):
        v = self.I.expand(st, self.I.read(st, cell))
        f = self.R.fields
        if v[0] != "adt":
            return None
        inp = self.I.models.deref(st, v[3][f["input"]])
        n = v[3][f["n"]]
        if n[0] == "sym":
            n = self.I.expand(st, n)
        if inp[0] != "bytes" or len(inp[1]) != 1 or inp[1][0][0] != "sub" or inp[1][0][2] != C(0) or not is_int(n):
            return None
        return inp[1][0][1], inp[1][0][3], n

    def set_n(self, st, cell, n):
        self.I.write(st, cell, (("f", None, self.R.fields["n"]),), n)

    def split(self, st):
        """Loop heads at the end of the input are kept apart."""
        out = ()
        for c, v in st.mem.items():
            if v[0] == "adt" and v[1] == self.R.pty:
                s = self.parser(st, c)
                out += (s is not None and bool(st.F.le(s[1], s[2])),)
        return out

    def prepare(self, st, args):
        """Spell out the parser an argument refers to: a position within the input, an empty buffer."""
        I = self.I
        for i, a in enumerate(args):
            if a[0] == "sym":
                t = self.p.types[a[2]]
                if t["k"] == "ref":
                    args[i] = I.text(st, a[1] + ("*",)) if I.is_dst_bytes(t["e"]) else ("ref", ("P", a[1] + ("*",), t["e"]), ())
                else:
                    args[i] = I.expand(st, a)
        for i, a in enumerate(args):
            if a[0] == "ref" and a[1][0] == "P" and a[1][2] == self.R.pty:
                self.cell = a[1]
                f = self.R.fields
                for k in ("input", "n"):
                    v = I.read(st, a[1], (("f", None, f[k]),))
                    v = I.models.deref(st, v) if k == "input" else I.expand(st, v) if v[0] == "sym" else v
                    I.write(st, a[1], (("f", None, f[k]),), v)
                if f["scratch"] is not None:
                    I.write(st, a[1], (("f", None, f["scratch"]),), EMPTY)
                s = self.parser(st, a[1])
                if s is None:
                    return None
                st.F.assume_le(s[2], s[1])
                return s
        return None

    def strings_in(self, st, v, ti, out, path=()):
        """Texts named in an argument: [(path, id value)]."""
        t = self.p.types[ti]
        v = self.I.models.deref(st, v)
        if t["k"] == "ref":
            return self.strings_in(st, v, t["e"], out, path)
        if t["k"] == "adt" and t["path"].endswith("::StringId"):
            out.append(v)
        elif t["k"] == "adt" and t.get("local") and t.get("ak") == "struct" and "v" in t and ti != self.R.pty:
            v = self.I.expand(st, v) if v[0] == "sym" else v
            if v[0] == "adt":
                for (_, ft), x in zip(t["v"][0]["f"], v[3]):
                    self.strings_in(st, x, ft, out, path)
        return out

    def text(self, st, v):
        """Pieces of the text a StringId stands for."""
        v = self.I.models.deref(st, v)
        if v[0] == "sym":
            v = self.I.expand(st, v)
        t = self.I.models.sid(st, v)
        return t if t is not None and t[0] == "bytes" else None

    # ---- the contract of a nested value
    def contract(self, I, st, k, args, atys, dty):
        self.calls += 1
        f = self.p.fns[k]
        cell = None
        for i in self.R.pargs:
            a = args[i]
            while a[0] == "ref" and st.mem.get(a[1], ("x",))[0] == "ref" and not a[2]:
                a = st.mem[a[1]]
            if a[0] == "ref" and not a[2]:
                cell = a[1]
        s = self.parser(st, cell) if cell is not None else None
        ss = []
        for i, a in enumerate(args):
            if i not in self.R.pargs:
                self.strings_in(st, a, f["locals"][1 + i], ss)
        if s is None or len(ss) != 1:
            I.note(st, "nested value with unknown parser state")
            return [(st, ("top", "nested value"))]
        base, ln, n0 = s
        self.top = base, ln
        if self.R.fields["scratch"] is not None:
            b = I.models.deref(st, I.read(st, cell, (("f", None, self.R.fields["scratch"]),)))
            if b != EMPTY:
                I.note(st, "nested value with a buffer in use")
        t = self.text(st, ss[0])
        p = self.prefix_start(st, t, base, n0)
        if p is None:
            I.note(st, "prefix of a nested value is not known text")
            p = I.newint(st, 0)
            st.F.assume_le(p, n0)
        else:
            p, ok = p
            self.need(st, "tile", "prefix of a nested value ends where it starts", ok, "the text kept before a nested value is not the text right before it")
        self.need(st, "progress", "nested value at a later position", True if self.n0 is None or st.F.le(addc(self.n0, 1), n0) else False,
                  "a nested value may be parsed at the position of the enclosing one: " + self.where())
        out = []
        rt = self.p.types[dty]
        for vi, var in enumerate(rt["v"]):
            x = st.copy()
            if var["name"] == "Ok":
                for some in (False, True):
                    y = x.copy()
                    q, n1 = I.newint(y, 0), I.newint(y, 0)
                    if not (y.F.assume_le(p, q) and y.F.assume_le(q, n1) and y.F.assume_le(n0, n1) and y.F.assume_le(n1, ln)):
                        continue
                    if not some:
                        if not y.F.assume_eq(q, n1):
                            continue
                        q = n1
                    self.set_n(y, cell, n1)
                    idv = self.new_entry(y, base, p, n0, q)
                    fol = ("hash", ("bytes", (("sub", base, q, n1),)))
                    pt = var["f"][0][1]
                    out.append((y, ("adt", dty, vi, (self.payload(pt, idv, fol if some else None),))))
            else:
                y = x
                n1 = I.newint(y, 0)
                y.F.assume_le(n1, ln)
                self.set_n(y, cell, n1)
                out.append((y, ("adt", dty, vi, (self.error(y, var["f"][0][1], ln),))))
        return out

    def prefix_start(self, st, t, base, n0):
        """(start, ends at n0) of a prefix text."""
        if t is None:
            return None
        if t == EMPTY:
            return n0, True
        if len(t[1]) == 1 and t[1][0][0] == "sub" and t[1][0][1] == base:
            a, b = t[1][0][2], t[1][0][3]
            return a, st.F.eq(b, n0)
        return None

    def wrap(self, ti, v):
        """A newtype around a value, down to the type's innermost field."""
        t = self.p.types[ti]
        if t["k"] == "adt" and t.get("ak") == "struct" and "v" in t and len(t["v"][0]["f"]) == 1:
            return ("adt", ti, 0, (self.wrap(t["v"][0]["f"][0][1], v),))
        return v

    def payload(self, pt, idv, fol):
        t = self.p.types[pt]
        fs = t["f"] if t["k"] == "tuple" else [x[1] for x in t["v"][0]["f"]]
        vals = []
        for ft in fs:
            x = self.p.types[ft]
            if x["path"].endswith("::Id"):
                vals.append(self.wrap(ft, idv))
            elif fol is None:
                vals.append(self.I.models.none(ft))
            else:
                st = [v["f"][0][1] for v in x["v"] if v["name"] == "Some"][0]
                vals.append(self.I.models.some(ft, ("adt", st, 0, (fol,))))
        return ("tup", tuple(vals)) if t["k"] == "tuple" else ("adt", pt, 0, tuple(vals))

    def new_entry(self, st, base, p, n0, q):
        I = self.I
        i = S(fresh("id"))
        st.F.row(mono(i))
        cell = ("E", i)
        et = I.entry_ty()
        pre = ("hash", ("bytes", (("sub", base, p, n0),)))
        st.mem[cell] = self.build(et, {"::Raw": ("obj", "parsed", p, q), "::StringId": pre})
        st.dirty = st.dirty | {cell}
        return addc(i, 1)

    def build(self, ti, known):
        t = self.p.types[ti]
        for suf, v in known.items():
            if t.get("path", "").endswith(suf):
                return ("adt", ti, 0, (v,)) if suf == "::StringId" else v
        if t["k"] == "adt" and t.get("ak") == "struct" and t.get("local") and "v" in t:
            return ("adt", ti, 0, tuple(self.build(ft, known) for _, ft in t["v"][0]["f"]))
        return ("any", "nested")

    def error(self, st, ti, ln):
        """An error with a span within the input."""
        t = self.p.types[ti]
        a, b = self.I.newint(st, 0), self.I.newint(st, 0)
        st.F.assume_le(a, b)
        st.F.assume_le(b, ln)
        vals = []
        for _, ft in t["v"][0]["f"]:
            x = self.p.types[ft]
            if "Range" in x.get("path", ""):
                vals.append(("adt", ft, 0, (a, b)))
            else:
                vals.append(("any", "error kind"))
        return ("adt", ti, 0, tuple(vals))

    def where(self):
        return " > ".join(x.split("::")[-1] for x in self.I.stack[-4:])

    # ---- items of the container being read
    def push(self, st, x):
        """An id is appended to a list."""
        i = self.I.idof(st, x.args[1])
        if i is None or i[2] == () or KIND.get(mono(i) or 0) != "id":
            return
        v = st.mem.get(PEND, ("list", ()))
        st.mem[PEND] = ("list", v[1] + (("el", i),))

    def flush(self, st):
        v = st.mem.get(PEND)
        if v is None or not v[1]:
            return
        done = []
        for p in v[1]:
            if p[0] == "el":
                self.item(st, p[1])
                done.append(p[1])
        st.mem[PEND] = ("list", ())
        self.fold(st, done)

    def fold(self, st, done):
        """Items accounted for need not be told apart any more."""
        old = lambda p: p[0] == "sl" and p[1] == ("items",) or p[0] == "el" and self.I.idof(st, p[1]) in done
        hit = False
        for c, v in list(st.mem.items()):
            if c != PEND and v[0] == "list" and any(p[0] == "el" and old(p) for p in v[1]):
                k = max(j for j, p in enumerate(v[1]) if old(p)) + 1
                if all(old(p) for p in v[1][:k]):
                    m = self.I.newint(st, 1)
                    st.mem[c] = ("list", (("sl", ("items",), C(0), m, self.id_ty()),) + v[1][k:])
                    hit = True
        if hit:
            for i in done:
                raw, pre = self.entry(st, i)
                go = [i]
                if raw is not None:
                    for t in ids_in(self.I, st, raw):
                        r, _ = self.entry(st, t)
                        if r is not None and r[:2] == ("obj", "parsed"):
                            go.append(t)
                for t in go:
                    cell = self.I.models.entry_cell(st, addc(t, -1))
                    st.mem.pop(cell, None)
                    st.dirty = st.dirty - {cell}

    def id_ty(self):
        return [i for i, t in enumerate(self.p.types) if t.get("path", "").endswith("::Id") and t["k"] == "adt" and t.get("local")][0]

    def entry(self, st, i):
        cell = self.I.models.entry_cell(st, addc(i, -1))
        v = st.mem.get(cell)
        if v is None or v[0] != "adt":
            return None, None
        raw, pre = None, None
        def go(v, ti):
            nonlocal raw, pre
            t = self.p.types[ti]
            if t.get("path", "").endswith("::Raw"):
                raw = v
            elif t.get("path", "").endswith("::StringId"):
                pre = v
            elif v[0] == "adt" and t["k"] == "adt" and t.get("ak") == "struct" and "v" in t:
                for (_, ft), x in zip(t["v"][0]["f"], v[3]):
                    go(x, ft)
        go(v, self.I.entry_ty())
        return raw, (self.text(st, pre) if pre is not None else None)

    def sub(self, t):
        """(a, b) of a text that is one piece of the input; None if it is not; (None, None) when empty."""
        if t == EMPTY:
            return (None, None)
        if t is not None and len(t[1]) == 1 and t[1][0][0] == "sub":
            return t[1][0][2], t[1][0][3]
        return None

    def byte(self, st, base, pos, c):
        v = st.F.find_byte(base, pos)
        m = st.F.get_mask(v) if v is not None else st.F.seg_mask_at(base, pos)
        if m is None:
            return False
        return m == ((c, c),)

    def field(self, v, names):
        """A field of an ADT value by its (canonical) name."""
        t = self.p.types[v[1]]["v"][v[2]]
        for (n, _), x in zip(t["f"], v[3]):
            if n in names:
                return x
        return None

    def item(self, st, i):
        """Account for one item: [,] prefix - value, or [,] prefix key : value."""
        I = self.I
        tile = st.mem.get(TILE, ("tup", ()))
        raw, pre = self.entry(st, i)
        s = self.parser(st, self.cell)
        got = self.item_text(st, raw, pre, s[0]) if s is not None and raw is not None else None
        if got is None:
            I.note(st, "item of unknown text")
            st.mem[TILE] = ("top", "item")
            return
        base = s[0]
        isseq, (a, b), body, end, dash = got        # body: where the text after the item's prefix starts
        if tile[0] == "top":
            return
        kind = "sequence" if isseq else "mapping"
        if tile[1] == ():
            if a is None:
                a = b = body
            self.need(st, "tile", "first item of a " + kind, st.F.eq(b, body), "bytes between an item's prefix and the item are not kept (" + kind + ")")
            own = self.n0 is not None and (0 if st.F.eq(a, self.n0) else 1 if st.F.eq(a, addc(self.n0, 1)) else None)
            block, inline = dash or not isseq, not dash
            if not isseq and own in (0, 1):
                block, inline = own == 0, own == 1
            st.mem[TILE] = ("tup", (a, end, ("b", isseq), ("b", dash), ("b", block), ("b", inline)))
            return
        T0, T, seq, dashed, block, inline = tile[1]
        if a is None:
            a = b = body
        self.need(st, "tile", "item of a " + kind, st.F.eq(b, body), "bytes between an item's prefix and the item are not kept (" + kind + ")")
        if st.F.eq(a, T):
            form = "block"
        elif st.F.eq(a, addc(T, 1)) and self.byte(st, base, T, 44):
            form = "inline"
        elif self.byte(st, base, addc(a, -1), 44) and st.F.le(addc(T, 1), a):
            form = "inline"
            self.need(st, "tile", "text before the comma of an inline " + kind, False, "bytes between a value and the comma after it are not kept (inline %s)" % kind)
        else:
            form = None
            self.need(st, "tile", "text between items of a " + kind, False, "bytes between the items of a %s are not kept" % kind)
        if dashed != ("b", dash) or form == "block" and isseq and not dash or form == "inline" and dash:
            self.need(st, "tile", "form of the items of a " + kind, False, "the items of one %s are read in different forms" % kind)
        st.mem[TILE] = ("tup", (T0, end, seq, dashed, ("b", block[1] and form == "block"), ("b", inline[1] and form == "inline")))

    def item_text(self, st, raw, pre, base):
        """(sequence item?, its prefix, start of what follows the prefix, end, read with a dash?)"""
        I = self.I
        if raw[0] != "adt":
            return None
        name = self.p.types[raw[1]]["v"][raw[2]]["name"]
        if name not in ("SequenceItem", "MappingItem") or len(raw[3]) != 1:
            return None
        it = raw[3][0]
        pr = self.sub(pre)
        if pr is None or it[0] != "adt":
            return None
        val = self.field(it, ("value",))
        vi = I.idof(st, val) if val is not None else None
        if vi is None:
            return None
        ext = self.extent(st, vi)
        if ext is None:
            return None
        p, q = ext
        if name == "SequenceItem":
            b = pr[1]
            if self.byte(st, base, addc(p, -1), 45) and (b is None or not st.F.eq(b, p)):
                return True, pr, addc(p, -1), q, True
            return True, pr, p, q, False
        key = self.field(it, ("key",))
        k = self.sub(self.string_text(st, key))
        if k is None or k[0] is None:
            return None
        self.need(st, "tile", "colon after a key", st.F.eq(addc(k[1], 1), p) and self.byte(st, base, k[1], 58),
                  "bytes between a key and its value other than the colon are not kept")
        return False, pr, k[0], q, False

    def extent(self, st, i):
        """The part of the input a node's text covers."""
        raw, pre = self.entry(st, i)
        if raw is not None and raw[:2] == ("obj", "parsed"):
            return raw[2], raw[3]
        return None

    def string_text(self, st, v):
        """The text written for a stored string: quoted as it was, or as it is."""
        if v is None or v[0] != "adt":
            return None
        kind = ids = None
        t = self.p.types[v[1]]["v"][v[2]]
        vals = {}
        for (n, ft), x in zip(t["f"], v[3]):
            x = self.I.expand(st, x) if x[0] == "sym" else x
            if self.p.types[ft]["path"].endswith("::StringId"):
                vals[n] = self.text(st, x)
            else:
                kind = x
        if kind is None or kind[0] != "adt":
            return None
        kn = self.p.types[kind[1]]["v"][kind[2]]["name"]
        if kn == "Bare":
            return vals.get("id")
        if kn == "Original":
            return vals.get("original")
        if kn == "Multiline":
            a, b = self.text(st, kind[3][0]), vals.get("original")
            return self.I.models.cat(a, b) if a is not None and b is not None else None
        return None

    # ---- the text of the finished node
    def body(self, st, raw, base, b0):
        """(end, fine) of the text of a node whose prefix ends at b0. None: not known."""
        I = self.I
        name = self.p.types[raw[1]]["v"][raw[2]]["name"]
        x = raw[3][0] if raw[3] else None
        if x is not None and x[0] == "sym":
            x = I.expand(st, x)
        if name == "Null":
            if x[0] != "adt":
                return None
            n = self.p.types[x[1]]["v"][x[2]]["name"]
            if n == "Empty":
                return b0, True
            if n == "Tilde":
                return addc(b0, 1), self.byte(st, base, b0, 126)
            return self.ends(st, self.text(st, x[3][0]), b0, base)
        if name == "String":
            return self.ends(st, self.string_text(st, x), b0, base)
        if name in ("Boolean", "Number"):
            ts = [self.text(st, y) for (n, ft), y in zip(self.p.types[x[1]]["v"][x[2]]["f"], x[3]) if self.p.types[ft].get("path", "").endswith("::StringId")]
            return self.ends(st, ts[0], b0, base) if len(ts) == 1 else None
        if name in ("Sequence", "Mapping"):
            return self.container(st, name, x, base, b0)
        return None

    def ends(self, st, t, b0, base=None):
        if t is None:
            return None
        pos, ok = b0, True
        for p in t[1]:
            if p[0] == "lit" and base is not None:
                ok = ok and all(self.byte(st, base, addc(pos, i), c) for i, c in enumerate(p[1]))
                pos = addc(pos, len(p[1]))
                continue
            if p[0] != "sub":
                return None
            ok = ok and st.F.eq(p[2], pos)
            pos = p[3]
        return pos, ok

    def container(self, st, name, x, base, b0):
        I = self.I
        kind = self.field(x, ("kind",))
        items = I.models.deref(st, self.field(x, ("items",)))
        if kind[0] == "sym":
            kind = I.expand(st, kind)
        if kind[0] != "adt" or items[0] != "list":
            return None
        tile = st.mem.get(TILE, ("tup", ()))
        if tile[0] != "tup":
            return None
        empty = items[1] == ()
        if empty != (tile[1] == ()):
            return None
        w = name.lower()
        if self.p.types[kind[1]]["v"][kind[2]]["name"] != "Inline":
            if empty:
                return b0, True
            T0, T, seq, dashed, block, inline = tile[1]
            fine = st.F.eq(T0, b0)
            self.need(st, "tile", "start of a block " + w, fine, "bytes before the first item of a block %s are not kept" % w)
            self.need(st, "tile", "form of a block " + w, seq == ("b", w == "sequence") and (dashed == ("b", True) or w == "mapping") and block != ("b", False),
                      "a %s in inline form is stored as a block" % w)
            return T, True
        vals = {}
        for (n, ft), y in zip(self.p.types[kind[1]]["v"][kind[2]]["f"], kind[3]):
            if self.p.types[ft]["s"] == "bool":
                vals["trailing"] = y
            else:
                vals["suffix"] = self.text(st, y)
        suf = self.sub(vals.get("suffix"))
        tr = vals.get("trailing")
        if suf is None or tr is None or tr[0] != "b":
            return None
        o, c = (91, 93) if name == "Sequence" else (123, 125)
        self.need(st, "tile", "opening of an inline " + w, self.byte(st, base, b0, o), "the opening bracket of an inline %s is not where its prefix ends" % w)
        pos = addc(b0, 1)
        if not empty:
            T0, T, seq, dashed, block, inline = tile[1]
            self.need(st, "tile", "start of an inline " + w, st.F.eq(T0, pos), "bytes before the first item of an inline %s are not kept" % w)
            self.need(st, "tile", "form of an inline " + w, seq == ("b", w == "sequence") and (dashed == ("b", False)) and inline != ("b", False),
                      "a %s in block form is stored inline" % w)
            pos = T
        if tr == ("b", True):
            there = self.byte(st, base, pos, 44)
            if not there and not empty and suf[0] is not None and self.byte(st, base, addc(suf[0], -1), 44) and st.F.le(addc(pos, 1), suf[0]):
                # there is a comma, further on
                self.need(st, "tile", "text before the comma of an inline " + w, False, "bytes between a value and the comma after it are not kept (inline %s)" % w)
                pos = addc(suf[0], -1)
            else:
                self.need(st, "tile", "trailing comma of an inline " + w, there, "an inline %s is said to end in a comma where there is none" % w)
            pos = addc(pos, 1)
        if suf[0] is not None:
            self.need(st, "tile", "suffix of an inline " + w, st.F.eq(suf[0], pos), "bytes after the last item of an inline %s are not kept" % w)
            pos = suf[1]
        self.need(st, "tile", "closing of an inline " + w, self.byte(st, base, pos, c), "bytes before the closing bracket of an inline %s are not kept" % w)
        return addc(pos, 1), True

    # ---- runs
    CLASSES = [rs(*x) for x in (b"-", b'"', b"'", b"[", b"{", b">|")]
    CLASSES += [rs_minus(FULL8, rs(*b"-\"'[{>|")), ()]

    def value(self, cls=None):
        """Check the contract on the parser of one value. `cls`: bytes it may start with; () is no byte at all."""
        I, p, R = self.I, self.p, self.R
        f = p.fns[R.entry]
        st = I.start()
        args = [("sym", ("a%d" % i,), f["locals"][i + 1]) for i in range(f["n_args"])]
        s = self.prepare(st, args)
        self.given = ["a%d" % i for i in range(len(args)) if i not in R.pargs]
        if s is None:
            return "the parser's state is not understood"
        base, ln, n0 = s
        ss = []
        for i, a in enumerate(args):
            if i not in R.pargs:
                if not self.set_prefix(st, a, f["locals"][i + 1], base, n0):
                    return "the prefix of a value is not understood"
        self.n0 = n0
        st.mem[INIT] = ("tup", (self.p0, n0, ln))
        if cls == ():
            ok = st.F.assume_le(ln, n0)
        elif cls is not None:
            ok = st.F.assume_le(addc(n0, 1), ln)
            v = st.F.byte_at(base, n0)
            if mono(v) in st.F.mask:
                st.F.mask[mono(v)] = cls
        else:
            ok = True
        if not ok:
            return "the parser's state is not understood"
        st.mem[TILE] = ("tup", ())
        st.mem[PEND] = ("list", ())
        try:
            outs = I.run_fn(R.entry, args, st)
        except Budget as e:
            return str(e)
        except RecursionError:
            return "analysis depth"
        self.outs = outs
        for x, r in outs:
            self.result(x, r, base, ln)
        return None

    def set_prefix(self, st, a, ti, base, n0):
        """Let the one text in the argument be the input right before the position."""
        I = self.I
        found = []
        def go(ti, path):
            t = self.p.types[ti]
            if t["k"] == "adt" and t["path"].endswith("::StringId"):
                found.append((path, ti))
            elif t["k"] == "adt" and t.get("local") and t.get("ak") == "struct" and "v" in t:
                for i, (_, ft) in enumerate(t["v"][0]["f"]):
                    go(ft, path + (("f", None, i),))
        t = self.p.types[ti]
        cell = None
        if t["k"] == "ref" and a[0] == "ref":
            go(t["e"], ())
            cell = a[1]
        else:
            return False
        if len(found) != 1:
            return not found
        self.p0 = I.newint(st, 0)
        st.F.assume_le(self.p0, n0)
        I.write(st, cell, found[0][0], ("adt", found[0][1], 0, (("hash", ("bytes", (("sub", base, self.p0, n0),))),)))
        return True

    def ok_parts(self, st, r):
        """(node, text that follows | None) of a successful result."""
        v = r[3][0]
        vals = v[1] if v[0] == "tup" else v[3] if v[0] == "adt" else None
        if vals is None:
            return None
        idv = fol = None
        some = False
        for x in vals:
            x = self.I.expand(st, x) if x[0] == "sym" else x
            if x[0] == "adt" and self.p.types[x[1]]["path"].endswith("::Option"):
                if self.p.types[x[1]]["v"][x[2]]["name"] == "Some":
                    some, fol = True, self.text(st, x[3][0])
            elif self.I.idof(st, x) is not None:
                idv = self.I.idof(st, x)
            else:
                return None
        return (idv, some, fol) if idv is not None else None

    def result(self, st, r, base, ln):
        I = self.I
        self.flush(st)
        if r[0] != "adt":
            self.need(st, "tile", "outcome of parsing a value", None, "")
            return
        name = self.p.types[r[1]]["v"][r[2]]["name"]
        if name == "Err":
            self.span(st, r[3][0], ln)
            return
        x = self.ok_parts(st, r)
        s = self.parser(st, self.cell)
        if x is None or s is None:
            self.need(st, "tile", "outcome of parsing a value", None, "")
            return
        i, some, fol = x
        n1 = s[2]
        raw, pre = self.entry(st, i)
        pr = self.sub(pre)
        if raw is None or raw[0] != "adt" or pr is None:
            ext = self.extent(st, i)
            if ext is None:
                self.need(st, "tile", "text of a parsed value", None, "")
                return
            a, q, fine = ext[0], ext[1], True
            b0 = None
        else:
            kind = self.p.types[raw[1]]["v"][raw[2]]["name"]
            if pr[0] is None:
                # nothing before it: it has to cover nothing, or start where the prefix does
                a = b0 = self.p0
            else:
                a, b0 = pr
            e = self.body(st, raw, base, b0)
            if e is None:
                self.need(st, "tile", "text of a parsed " + kind, None, "")
                return
            q, fine = e
            if kind == "Null" and q == b0 or kind in ("Mapping", "Sequence") and st.mem.get(TILE) == ("tup", ()) and q == b0:
                self.need(st, "tile", "text in front of an empty " + kind, st.F.eq(a, b0), "the text in front of an empty %s is not written" % kind)
            self.need(st, "tile", "text of a parsed " + kind, True if fine else False, "the text kept for a %s is not the input from where its prefix ends" % kind)
        self.need(st, "tile", "start of a parsed value", st.F.eq(a, self.p0), "the prefix handed to a value is not kept in front of it")
        end = q
        if some:
            t = self.sub(fol)
            if t is None:
                self.need(st, "tile", "text handed back after a value", None, "")
                return
            if t[0] is not None:
                self.need(st, "tile", "text handed back after a value", st.F.eq(t[0], q), "bytes between a value and the text handed back after it are lost or repeated")
                end = t[1]
        self.need(st, "tile", "end of a parsed value", st.F.eq(end, n1), "parsing a value goes on at another position than the end of what is kept of it")
        self.need(st, "progress", "position after a value", st.F.le(self.n0, n1) and st.F.le(n1, ln), "parsing a value moves back or past the end")

    def span(self, st, e, ln):
        """Errors name a part of the input."""
        t = self.p.types[e[1]] if e[0] == "adt" else None
        rng = None
        if t is not None:
            for (_, ft), x in zip(t["v"][e[2]]["f"], e[3]):
                if "Range" in self.p.types[ft].get("path", ""):
                    rng = self.I.expand(st, x) if x[0] == "sym" else x
        if rng is None or rng[0] != "adt" or not all(is_int(y) for y in rng[3][:2]):
            self.need(st, "span", "span of an error", None, "")
            return
        a, b = rng[3][:2]
        kinds = [y for y in e[3] if y[0] == "adt" and y is not rng]
        k = self.p.types[kinds[0][1]]["v"][kinds[0][2]]["name"] if kinds and kinds[0][1:] and "v" in self.p.types[kinds[0][1]] else "nested"
        self.need(st, "span", "start of the span of %s" % k, st.F.le(a, b), "an error (%s) may have a span that starts after its end" % k)
        self.need(st, "span", "end of the span of %s" % k, st.F.le(b, ln), "an error (%s) may have a span past the end of the input" % k)

    def document(self, key):
        """The function around: what it keeps of the whole input."""
        I, p, R = self.I, self.p, self.R
        f = p.fns[key]
        st = I.start()
        args = [("sym", ("a%d" % i,), f["locals"][i + 1]) for i in range(f["n_args"])]
        self.n0 = None
        self.p0 = C(0)
        self.top = None
        st.mem[TILE] = ("tup", ())
        st.mem[PEND] = ("list", ())
        try:
            outs = I.run_fn(key, args, st)
        except Budget as e:
            return str(e)
        except RecursionError:
            return "analysis depth"
        self.outs = outs
        if self.top is None:
            return "no value is parsed"
        base, ln = self.top
        for x, r in outs:
            if r[0] == "sym":
                r = I.expand(x, r)
            name = p.types[r[1]]["v"][r[2]]["name"] if r[0] == "adt" else None
            if name == "Err":
                self.span(x, r[3][0], ln)
            elif name == "Ok":
                self.whole(x, r[3][0], base, ln)
            else:
                self.need(x, "tile", "outcome of parsing a document", None, "")
        return None

    def whole(self, st, d, base, ln):
        """root and suffix of a document cover the input."""
        I = self.I
        d = I.expand(st, d) if d[0] == "sym" else d
        root = self.field(d, ("root",)) if d[0] == "adt" else None
        suf = self.field(d, ("suffix",)) if d[0] == "adt" else None
        i = I.idof(st, root) if root is not None else None
        t = self.sub(self.text(st, suf)) if suf is not None else None
        ext = self.extent(st, i) if i is not None else None
        if ext is None or t is None:
            self.need(st, "tile", "text of a document", None, "")
            return
        p, q = ext
        self.need(st, "tile", "start of a document", st.F.eq(p, C(0)), "bytes at the start of the input are not kept")
        if t[0] is not None:
            self.need(st, "tile", "text after the value of a document", st.F.eq(t[0], q), "bytes after the value of a document are lost or repeated")
            q = t[1]
        self.need(st, "tile", "end of a document", st.F.eq(q, ln), "a document is accepted although not all of the input is kept")


# ---- all of it
PARSE = "nondestructive::yaml::from_slice"

def job(args):
    """One class of values, or the document; in a process of its own."""
    which, limit = args
    import sys
    sys.setrecursionlimit(100000)
    T = Tile(P_, ROLES, limit)
    try:
        e = T.document(which) if isinstance(which, str) else T.value(Tile.CLASSES[which])
    except Exception as x:
        e = "stopped: %s %s" % (type(x).__name__, x)
    I = T.I
    return {"which": which, "err": e, "obl": T.obl, "calls": T.calls, "und": dict(I.undecided),
            "panics": [{k: x.get(k) for k in ("fn", "msg", "line", "chain", "taint")} for x in I.panics],
            "rank": dict(I.rank_fail), "outs": len(getattr(T, "outs", ())), "fns": sorted(k for k in I.visited if p_local(k))}

P_ = ROLES = None

def run_all(p, limit=400):
    """Results of every part, or a reason why there are none."""
    global P_, ROLES
    import multiprocessing as mp, threading
    R = Roles(p)
    if R.why:
        return R, R.why
    key = [k for k, f in p.fns.items() if f["path"] == PARSE]
    P_, ROLES = p, R
    threading.stack_size(512 * 1024 * 1024)
    jobs = [(i, limit) for i in range(len(Tile.CLASSES))] + [(k, limit) for k in key]
    with mp.get_context("fork").Pool(min(8, len(jobs)), initializer=None) as pool:
        return R, pool.map(deep, jobs, 1)

def deep(a):
    """On a stack large enough for the interpreter's recursion."""
    import threading
    out = []
    t = threading.Thread(target=lambda: out.append(job(a)))
    t.start()
    t.join()
    return out[0]

def p_local(k):
    return bool(P_.fns.get(k, {}).get("local"))
