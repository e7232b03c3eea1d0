"""What the reader of quoted text does, as a table of tokens.

The reader is interpreted on a symbolic input that starts with a quote. A ghost remembers where the token being read starts; it is set
anew at every loop head at which the buffer of decoded text has grown. What the buffer has grown by, and what is known about the bytes
read since, is one token. The table of all tokens, with the ways in which reading ends, gives by induction what is read for any text that
is a concatenation of tokens."""
from . import ir, lib
from .interp import *
from .dom import *
from . import dom
from .tile import Tile, Roles, EMPTY

TOK = ("G", "token", 0)
DONE = ("G", "read", 0)
BEFORE = ("bytes", (("any", "before"),))

class Quotes(Tile):
    def __init__(self, p, roles, quote, heads=(), limit=300):
        super().__init__(p, roles, limit)
        I = self.I
        I.roots = I.roots + (TOK,)
        self.quote = quote
        self.tokens = set()     # (((mask, ...), lookahead mask), pushed)
        self.ends = set()
        self.heads = set(heads)
        self.grown = set()
        self.skips = set()
        self.errors = set()
        self.odd = []
        self.flush0 = self.flush
        I.exprs = True
        I.at_head = None
        I.head_hook = self.head
        I.split = self.ranges
        self.leave0 = self.leave
        I.at_return = self.ret
        I.on_call = self.stop
        I.merge_returns = 1000

    def stop(self, I, st, cal, args, atys, dty, caller, line):
        return [] if DONE in st.mem else None

    def ranges(self, st):
        """Loops over a few constant numbers are followed round by round."""
        out = list(self.split(st))
        rounds = False
        for c in sorted(st.mem, key=repr):
            v = st.mem[c]
            if c[0] == "L" and v[0] == "adt" and self.p.types[v[1]].get("path", "").split("::")[-1] in ("Range", "RangeInclusive") and len(v[3]) >= 2:
                a, b = v[3][0], v[3][1]
                if is_int(a) and is_int(b) and is_const(a) and is_const(b) and b[1] <= 16:
                    out.append((c, a[1], b[1]))
                    rounds = True
            elif c[0] == "L" and is_int(v) and is_const(v) and 0 <= v[1] <= 8:
                out.append((c, v[1]))
                rounds = True
        g = st.mem.get(TOK)
        if rounds and g is not None and DONE not in st.mem:
            # what is known of the bytes of the token so far
            s = self.parser(st, self.cell)
            m = self.masks(st, s[0], g[1][0], s[2]) if s is not None else None
            out.append(m and tuple(k for _, k in m))
        return tuple(out)

    # ---- tokens
    def scratch(self, st):
        f = self.R.fields
        if self.cell is None or f["scratch"] is None:
            return None
        v = self.I.models.deref(st, self.I.read(st, self.cell, (("f", None, f["scratch"]),)))
        return v if v[0] == "bytes" else None

    def grow(self, st):
        """What the buffer has grown by since the last token."""
        v = self.scratch(st)
        if v is None:
            return None
        if v[1][:1] == BEFORE[1]:
            return v[1][1:]
        g = st.mem.get(TOK)
        return v[1] if g is not None and g[1][1] == C(0) else None

    def head(self, key, bb, st):
        if DONE in st.mem or st.mem.get(TOK) is None:
            return
        at = (self.p.fns[key]["file"], self.p.fns[key]["line"], bb)
        s = self.parser(st, self.cell)
        g = st.mem[TOK]
        more = self.grow(st)
        if s is None or more is None:
            self.odd.append("the state of the reader"); return
        n0, first = g[1]
        if not more and not (at in self.heads and not st.F.eq(n0, s[2])):
            return
        if more:
            self.grown.add(at)
        if not st.taint:
            self.token(st, s, n0, more, first == C(0))
        self.restart(st, s[2])

    def restart(self, st, n):
        st.mem[TOK] = ("tup", (n, C(1)))
        self.I.write(st, self.cell, (("f", None, self.R.fields["scratch"]),), BEFORE)

    def masks(self, st, base, a, b):
        """Sets of bytes between two positions, None if it is not a fixed number of bytes."""
        d = sub(b, a)
        if not is_const(d) or d[1] > 24:
            for k in range(1, 13):
                if st.F.eq(b, addc(a, k)):
                    d = C(k)
                    break
            else:
                return None
        out = []
        for i in range(d[1]):
            v = st.F.byte_at(base, addc(a, i))
            out.append((v, (st.F.get_mask(v))))
        return out

    def token(self, st, s, n0, more, first):
        base, ln, n = s
        a = addc(n0, 1) if first else n0
        # copied as it is
        ps = lib.norm_text(self.I, st, ("bytes", more))
        if len(ps) == 1 and ps[0][0] == "sub" and ps[0][1] == base and st.F.eq(ps[0][2], a) and st.F.eq(ps[0][3], n):
            self.tokens.add(("copy", st.F.cover(base, a, n), self.look(st, base, n, ln), first))
            return
        m = self.masks(st, base, a, n)
        if m is None:
            if not more:
                self.skips.add(("skip", st.F.cover(base, a, n), first))
            else:
                self.odd.append("a token of unknown length")
            return
        sy = {}
        for i, (v, k) in enumerate(m):
            if mono(v):
                sy[mono(v)] = i
        push = tuple(self.expr(st, x, sy) for x in ps)
        self.tokens.add(("token", tuple(k for _, k in m), self.look(st, base, n, ln), push))

    def look(self, st, base, n, ln):
        b = st.F.find_byte(base, n)
        if b is None and st.F.le(ln, n):
            return ()               # the input ends here
        return FULL8 if b is None else st.F.get_mask(b)

    def expr(self, st, x, sy):
        """A pushed piece as an expression over the bytes of the token."""
        if x[0] == "lit":
            return x
        if x[0] in ("byte", "utf8"):
            e = self.term(st, x[1], sy)
            return (x[0], e)
        return ("?", x[0])

    def term(self, st, v, sy):
        """A number as an expression over the bytes of the token."""
        if v[0] == "sum":
            off, parts = v[1], v[2]
        elif is_int(v):
            off, parts = v[1], tuple((c, ("sym", s)) for s, c in v[2])
        else:
            return None
        out = []
        for c, x in parts:
            if x[0] == "sym":
                y = ("in", sy[x[1]]) if x[1] in sy else None
                if y is None:
                    e = st.F.misc.get(("expr", S(x[1])))
                    y = None if e is None else self.operation(st, e, sy)
            else:
                y = self.operation(st, x, sy)
            if y is None:
                return None
            out.append((c, y))
        return ("sum", off, tuple(out))

    def operation(self, st, x, sy):
        a, b = self.term(st, x[1], sy), self.term(st, x[2], sy)
        return None if a is None or b is None else (x[0], a, b)

    def ret(self, key, st, v):
        """A string has been read."""
        if DONE not in st.mem and st.mem.get(TOK) is not None:
            r = self.string_in(st, v)
            if r is not None:
                self.end(st, r)
                st.mem[DONE] = ("tup", ())
            elif v[0] == "adt" and self.I.variant(v) == "Err":
                self.error(st)
                st.mem[DONE] = ("tup", ())
            else:
                return v
        return self.leave0(key, st, v)

    def error(self, st):
        """The text is rejected."""
        s = self.parser(st, self.cell)
        if s is None or st.taint:
            self.odd.append("an error: " + ", ".join(sorted(st.taint))); return
        n0, first = st.mem[TOK][1]
        a = addc(n0, 1) if first == C(0) else n0
        ms = []
        for i in range(16):
            b = st.F.find_byte(s[0], addc(a, i))
            if b is None:
                break
            ms.append(st.F.get_mask(b))
        if st.F.le(s[1], addc(a, len(ms))):
            ms.append(None)         # the input ends here
        self.errors.add(tuple(ms))

    def string_in(self, st, v):
        """(content, source text) of a string value inside v."""
        if v[0] == "adt":
            var = self.p.types[v[1]]["v"][v[2]]
            ns = [n for n, _ in var["f"]]
            tx = [(n, x) for n, x in zip(ns, v[3]) if x[0] == "adt" and self.p.types[x[1]].get("path", "").endswith("::StringId")]
            if len(tx) == 2 and all(x[3][0][0] == "hash" for _, x in tx):
                d = dict((n, x[3][0][1]) for n, x in tx)
                if set(d) >= {"original", "id"}:
                    return d["id"], d["original"]
                return list(d.values())
            if len(tx) == 1 and len(ns) >= 2 and tx[0][0] == "id" and tx[0][1][3][0][0] == "hash":
                # the source text lies inside another part
                for x in v[3]:
                    if x[0] == "adt" and x[3] and x is not tx[0][1]:
                        for y in x[3]:
                            if y[0] == "adt" and y[3] and y[3][0][0] == "hash":
                                return tx[0][1][3][0][1], y[3][0][1]
            for x in v[3]:
                r = self.string_in(st, x)
                if r is not None:
                    return r
        return None

    def end(self, st, r):
        s = self.parser(st, self.cell)
        if s is None or len(r) != 2 or st.taint:
            self.odd.append("the end of the text: " + ", ".join(sorted(st.taint))); return
        base, ln, n = s
        content, source = r
        n0, first = st.mem[TOK][1]
        src = lib.norm_text(self.I, st, source)
        closed = None
        if len(src) == 1 and src[0][0] == "sub" and src[0][1] == base and st.F.eq(src[0][3], n):
            # the source text ends where reading goes on; its last byte is the closing quote, or the input ends here
            b = st.F.find_byte(base, addc(n, -1))
            closed = st.F.get_mask(b) if b is not None else FULL8
            if first == C(0) and st.F.eq(n, addc(n0, 1)):
                self.ends.add(("eof",)); return
            if st.F.le(ln, n) and (b is None or rs_size(st.F.get_mask(b)) > 1):
                self.ends.add(("eof",)); return
        ps = lib.norm_text(self.I, st, content)
        if ps == BEFORE[1] and st.F.eq(n0, n):
            self.ends.add(("eof",)); return
        q = addc(n, -1)
        kind = "odd"
        if ps == BEFORE[1]:
            kind = "buffer" if st.F.eq(n0, q) else "buffer-skipping"
        elif first == C(0) and (not ps or len(ps) == 1 and ps[0][0] == "sub" and ps[0][1] == base and st.F.eq(ps[0][2], addc(n0, 1)) and st.F.eq(ps[0][3], q)):
            kind = "piece"
            if not ps and not st.F.eq(addc(n0, 1), q):
                kind = "odd"
        cov = st.F.cover(base, addc(n0, 1), q) if kind == "piece" else ()
        self.ends.add(("end", kind, closed, cov, self.look(st, base, n, ln)))

    def run(self):
        self.I.on_push = None
        dom.SEG_OFFSETS = (0, 1)
        try:
            return self.value(((self.quote, self.quote),))
        finally:
            dom.SEG_OFFSETS = (0,)

def table(p, quote, limit=300):
    """(Quotes after a run, why it failed)."""
    R = Roles(p)
    if R.why:
        return None, R.why
    q = Quotes(p, R, quote, (), limit)
    start(q)
    why = q.run()
    if not why and q.grown:
        heads = q.grown
        q = Quotes(p, R, quote, heads, limit)
        start(q)
        why = q.run()
    return q, why

def start(q):
    """Lay the first token's start when the run begins."""
    orig = q.prepare
    def prepare(st, args):
        s = orig(st, args)
        if s is not None:
            st.mem[TOK] = ("tup", (s[2], C(0)))
        return s
    q.prepare = prepare

def value_of(e, data):
    """Value of an expression over the bytes of a token, None if it is not known."""
    if e is None:
        return None
    if e[0] == "sum":
        t = e[1]
        for c, x in e[2]:
            v = value_of(x, data)
            if v is None:
                return None
            t += c * v
        return t
    if e[0] == "in":
        return data[e[1]]
    a, b = value_of(e[1], data), value_of(e[2], data)
    if a is None or b is None:
        return None
    return {"Shl": lambda: (a << b) & 0xffffffff, "ShlUnchecked": lambda: (a << b) & 0xffffffff, "BitOr": lambda: a | b, "Mul": lambda: a * b, "Add": lambda: a + b, "BitAnd": lambda: a & b, "Shr": lambda: a >> b, "ShrUnchecked": lambda: a >> b,
            "BitXor": lambda: a ^ b}.get(e[0], lambda: None)()

def pushed(push, data):
    """Bytes pushed by a token that reads `data`; None if not known."""
    out = b""
    for x in push:
        if x[0] == "lit":
            out += x[1]
        elif x[0] == "byte":
            v = value_of(x[1], data)
            if v is None: return None
            out += bytes([v & 255])
        elif x[0] == "utf8":
            v = value_of(x[1], data)
            if v is None or v > 0x10ffff or 0xd800 <= v < 0xe000: return None
            out += chr(v).encode()
        else:
            return None
    return out
