"""Output typestate: what the renderers of the document tree emit, against one grammar of the text of a node.

The text of a node X is given by a small automaton. V(X) is X as the value of an entry: nothing for an empty null and for a block container
without entries, else the text stored in front of X followed by B(X). B(X) is X without that text. A renderer is interpreted on a generic
node; every piece of text it emits must be what the automaton expects next, calls of the recursive renderer stand for V or B of the child
they are given. The state of the automaton travels with the abstract state, so that it is joined at loop heads like any other value.
"""
import re
from . import ir, lib
from .dom import *

MON = ("G", "mon")
SEP = {"Mapping": (b"{", b"}"), "Sequence": (b"[", b"]")}
SIMPLE = {b"\\0": 0, b"\\a": 7, b"\\b": 8, b"\\t": 9, b"\\n": 10, b"\\v": 11, b"\\f": 12, b"\\r": 13, b"\\e": 27, b"\\\"": 34, b"\\/": 47, b"\\\\": 92, b"\\ ": 32}

def mon(pc, x, k=C(0), pos=C(0)):
    return ("obj", "mon", pc, x, k, pos)

def doc_ty(p):
    return next((i for i, t in enumerate(p.types) if t["k"] == "adt" and t.get("path", "").endswith("::Document") and "v" in t), None)

class Monitor:
    """One run. `root` = ('doc', ...) or a node."""
    def __init__(self, I, quoting):
        self.I = I
        self.q = quoting        # list of (quote, 'raw', mask) and (quote, mask, escape) seen
        I.on_emit = self.on_emit
        I.on_fail = self.on_fail
        self.lossy = set()      # functions that write stored text through a lossy conversion
        self.count = 0

    # ---- names that stand for the same thing: elements of a list at positions that are equal
    def eqn(self, st, a, b):
        if a == b:
            return True
        if type(a) is not tuple or type(b) is not tuple:
            return False
        if is_int(a) and is_int(b):
            if st.F.eq(a, b):
                return True
            s, t = mono(a), mono(b)
            o, q = self.I.origin.get(s) if s else None, self.I.origin.get(t) if t else None
            return o is not None and q is not None and a[1] == b[1] and self.eqn(st, o, q)
        return len(a) == len(b) and all(self.eqn(st, x, y) for x, y in zip(a, b))

    def at_end(self, st, p, t):
        return st.F.eq(p[3], t[1]) or st.F.eq(p[3], self.I.length(st, p[1]))

    def byte(self, st, base, pos):
        b = st.F.find_byte(base, pos)
        if b is None:
            for (n, p), v in st.F.byte.items():
                if self.eqn(st, n, base) and st.F.eq(p, pos):
                    return v
        return b

    # ---- what the automaton expects
    def fld(self, st, x, *names):
        c = ("E", x)
        self.I.read(st, c)
        return lib.Entry(self.I, st, c).f(*names)

    def text(self, st, v):
        """(base, length) of a stored text."""
        t = lib.text_of(self.I, st, v) if v is not None else None
        if t is None:
            return None
        ps = lib.norm_text(self.I, st, t)
        if len(ps) == 0:
            return (None, C(0))
        if len(ps) == 1 and ps[0][0] == "sub" and st.F.eq(ps[0][2], C(0)):
            return (ps[0][1], ps[0][3])
        return None

    def kind(self, st, x):
        return self.I.vname(st, x)

    def sub_kind(self, st, v):
        return self.I.variant(v) if v is not None and v[0] == "adt" else None

    def items(self, st, x):
        v = self.fld(st, x, "items")
        v = self.I.models.deref(st, v) if v is not None else None
        if v is not None and v[0] == "sym":
            v = self.I.expand(st, v)
        return v if v is not None and v[0] == "list" else None

    def vacuous(self, st, x):
        """Does the node have no text at all, not even the one in front of it? True, False, None."""
        k = self.kind(st, x)
        if k is None:
            return None
        if k == "Null":
            s = self.null(st, x)
            return None if s is None else s == "Empty"
        if k in SEP:
            s = self.sub_kind(st, self.fld(st, x, "kind"))
            if s == "Inline":
                return False
            l = self.items(st, x)
            n = self.I.models.len_of(st, l) if l is not None else None
            e = lib.eq(st, n, C(0)) if n is not None else None
            if e is False:
                return False
            return True if e and s is not None else None
        return False

    def null(self, st, x):
        c = ("E", x)
        self.I.read(st, c)
        raw = lib.Entry(self.I, st, c).raw
        if raw is None or raw[0] != "adt" or not raw[3]:
            return None
        v = self.I.models.deref(st, raw[3][0])
        if v[0] == "sym":
            v = self.I.expand(st, v)
        return self.sub_kind(st, v)

    def payload(self, st, x):
        raw = lib.Entry(self.I, st, ("E", x)).raw
        v = self.I.models.deref(st, raw[3][0])
        return self.I.expand(st, v) if v[0] == "sym" else v

    def expect(self, st, m):
        """('lit', bytes, next) | ('text', (base, n), next) | ('esc', quote, (base, n), next) | ('tok', V|B, id, next, k) | ('go', pc) | ('end',) | ('?', why)"""
        _, _, pc, x, k, pos = m
        I = self.I
        if pc.startswith("S/"):
            # text of a string, then what follows
            _, where, stage, nxt = pc.split("/", 3)
            s = self.payload(st, x) if where == "v" else self.key(st, x, k)
            if s is None or s[0] != "adt":
                return ("?", "string of an unknown item")
            kd = I._field(st, s, "kind")
            style = self.sub_kind(st, kd)
            if style is None:
                return ("?", "style of a string")
            if style == "Multiline" and stage == "0":
                return self.txt(st, kd[3][0], "S/%s/1/%s" % (where, nxt))
            if style in ("Original", "Multiline"):
                return self.txt(st, I._field(st, s, "original"), nxt)
            if style == "Bare":
                return self.txt(st, I._field(st, s, "id"), nxt)
            if style in ("Single", "Double"):
                q = b"'" if style == "Single" else b'"'
                if stage == "0":
                    return ("lit", q, "S/%s/1/%s" % (where, nxt))
                if stage.startswith("1"):
                    t = self.text(st, I._field(st, s, "id"))
                    return ("esc", q, t, "S/%s/2/%s" % (where, nxt)) if t is not None else ("?", "text of a string")
                return ("lit", q, nxt)
            return ("?", "string style " + style)
        if pc == "D":
            return self.txt(st, self.fld(st, x, "layout", "prefix"), "D1")
        if pc == "D1":
            return ("tok", "B", x, "D2", k)
        if pc == "D2":
            return self.txt(st, self.suffix(st), "end")
        if pc == "V":
            v = self.vacuous(st, x)
            return ("?", "kind of the node") if v is None else ("go", "end" if v else "Vp")
        if pc == "Vp":
            return self.txt(st, self.fld(st, x, "layout", "prefix"), "B")
        if pc == "end":
            return ("end",)
        kd = self.kind(st, x)
        if kd is None:
            return ("?", "kind of the node")
        if pc == "B":
            if kd == "Null":
                s = self.null(st, x)
                if s is None:
                    return ("?", "kind of null")
                if s == "Keyword":
                    return self.txt(st, self.payload(st, x)[3][0], "end")
                return ("lit", b"~", "end") if s == "Tilde" else ("go", "end")
            if kd in ("Boolean", "Number"):
                return self.txt(st, self.fld(st, x, "string"), "end")
            if kd == "String":
                return ("go", "S/v/0/end")
            if kd in SEP:
                s = self.sub_kind(st, self.fld(st, x, "kind"))
                if s is None:
                    l = self.items(st, x)
                    return ("?", "kind of container")
                return ("lit", SEP[kd][0], "Is") if s == "Inline" else ("go", "Is")
            if kd == "SequenceItem":
                return ("tok", "V", self.idx(st, self.fld(st, x, "value")), "end", k)
            if kd == "MappingItem":
                return ("go", "S/i/0/Ic")
            return ("?", "node of kind " + kd)
        if pc == "Ic" and kd == "MappingItem":
            return ("lit", b":", "Iw")
        if pc == "Iw" and kd == "MappingItem":
            return ("tok", "V", self.idx(st, self.fld(st, x, "value")), "end", k)
        # containers
        if kd not in SEP:
            return ("?", "entries of a node of kind " + kd)
        kv = self.fld(st, x, "kind")
        inline = self.sub_kind(st, kv) == "Inline"
        if self.sub_kind(st, kv) is None:
            return ("?", "kind of container")
        l = self.items(st, x)
        if l is None:
            return ("?", "entries of the container")
        n = I.models.len_of(st, l)
        if pc in ("It", "Is"):
            more = lib.le(st, addc(k, 1), n)
            if more is None:
                return ("?", "whether there are more entries")
            if more:
                return ("lit", b",", "Ip") if inline and pc == "It" else ("go", "Ip")
            if not inline:
                return ("go", "end")
            t = I._field(st, kv, "trailing")
            t = self.boolean(st, t)
            return ("?", "trailing separator") if t is None else ("lit", b",", "Tx") if t else ("go", "Tx")
        if pc == "Tx":
            return self.txt(st, I._field(st, kv, "suffix"), "Ty")
        if pc == "Ty":
            return ("lit", SEP[kd][1], "end")
        it = self.item(st, x, k)
        if it is None:
            return ("?", "entry of the container")
        if pc == "Ip":
            return self.txt(st, self.fld(st, it, "layout", "prefix"), "Id")
        if pc == "Id":
            if kd == "Mapping":
                return ("go", "S/k/0/Ic")
            return ("go", "Iv") if inline else ("lit", b"-", "Iv")
        if pc == "Ic":
            return ("lit", b":", "Iv")
        if pc == "Iv":
            return ("tok", "V", self.idx(st, self.fld(st, it, "value")), "It", addc(k, 1))
        return ("?", "state " + pc)

    def boolean(self, st, v):
        if v is None:
            return None
        if v[0] == "b":
            return v[1]
        e = lib.eq(st, v, C(0)) if is_int(v) else None
        if e is None and is_int(v) and st.F.get_mask(v) == ((1, 1),):
            return True
        return None if e is None else not e

    def txt(self, st, v, nxt):
        t = self.text(st, v)
        return ("?", "stored text") if t is None else ("text", t, nxt)

    def idx(self, st, v):
        i = self.I.idof(st, v) if v is not None else None
        return addc(i, -1) if i is not None else None

    def item(self, st, x, k):
        l = self.items(st, x)
        e = self.I.models.item(st, l, k) if l is not None else None
        i = self.idx(st, e) if e is not None else None
        if i is None:
            return None
        c = st.mem.get(("E", i))
        if c is None or c[0] == "sym":
            for d, v in st.mem.items():
                if d[0] == "E" and v[0] != "sym" and d[1] != i and self.eqn(st, d[1], i):
                    return d[1]
        return i

    def key(self, st, x, k):
        it = self.item(st, x, k) if self.kind(st, x) in SEP else x
        v = self.fld(st, it, "key") if it is not None else None
        if v is not None and v[0] == "sym":
            v = self.I.expand(st, v)
        return v

    def suffix(self, st):
        ty = doc_ty(self.I.p)
        if ty is None:
            return None
        return self.I.expand(st, ("sym", ("a0", "*", "suffix"), dict(self.I.p.types[ty]["v"][0]["f"]).get("suffix")))

    # ---- steps
    def put(self, st, m):
        st.mem[MON] = m

    def get(self, st):
        return st.mem.get(MON)

    def fail(self, st, why):
        self.put(st, ("obj", "mon", "FAIL", why))
        return False

    def unknown(self, st, why):
        self.put(st, ("obj", "mon", "UNK", why))
        return False

    def settle(self, st, want):
        """Pass over everything that is provably empty, until something is expected for which `want` holds. None if stuck (state says why)."""
        for _ in range(40):
            m = self.get(st)
            if m[2] in ("FAIL", "UNK"):
                return None
            e = self.expect(st, m)
            if e[0] == "go":
                self.put(st, ("obj", "mon", e[1], m[3], m[4], C(0))); continue
            if e[0] == "text" and not want(e, m):
                n = e[1][1]
                if st.F.eq(m[5], n):
                    self.put(st, ("obj", "mon", e[2], m[3], m[4], C(0))); continue
            if e[0] == "esc" and not want(e, m) and st.F.eq(m[5], e[2][1]):
                self.put(st, ("obj", "mon", e[3], m[3], m[4], C(0))); continue
            if e[0] == "tok" and e[1] == "V" and not want(e, m):
                if e[2] is None:
                    return ("?", "child")
                v = self.vacuous(st, e[2])
                if v:
                    self.put(st, ("obj", "mon", e[3], m[3], e[4], C(0))); continue
            return e
        return ("?", "no progress")

    def piece(self, st, p):
        n = plen(p)
        if n is not None and st.F.eq(n, C(0)):
            return True
        if p[0] == "lit":
            return self.literal(st, p[1])
        if p[0] == "sub":
            def want(e, m):
                return e[0] in ("text", "esc") and self.eqn(st, e[-2][0], p[1]) and not st.F.eq(m[5], e[-2][1])
            e = self.settle(st, want)
            m = self.get(st)
            if e is None:
                return False
            if e[0] == "?":
                return self.unknown(st, e[1])
            if e[0] == "tok" and e[1] == "V" and e[2] is not None:
                # the value written in parts: its own text first
                t = self.text(st, self.fld(st, e[2], "layout", "prefix"))
                if t is not None and self.eqn(st, t[0], p[1]) and st.F.eq(p[2], C(0)) and self.at_end(st, p, t):
                    if self.vacuous(st, e[2]) is not False:
                        return self.fail(st, "writes the text in front of a value without regard to whether the value is empty")
                    self.put(st, ("obj", "mon", "+" + e[3], m[3], e[4], e[2])); return True
            if e[0] not in ("text", "esc"):
                return self.fail(st, "writes stored text where %s is due" % self.name(e))
            base, n = e[-2]
            if not self.eqn(st, base, p[1]):
                return self.fail(st, "writes a stored text other than the one that is due")
            if not st.F.eq(p[2], m[5]):
                r = lib.eq(st, p[2], m[5])
                return self.fail(st, "skips or repeats part of a stored text") if r is False else self.unknown(st, "position in a stored text")
            if e[0] == "esc":
                c = st.F.cover(p[1], p[2], p[3])
                self.q.append((e[1], "raw", c if c is not None else FULL8))
                self.put(st, m[:5] + (p[3],)); return True
            if self.at_end(st, p, (base, n)):
                self.put(st, ("obj", "mon", e[2], m[3], m[4], C(0)))
            else:
                self.put(st, m[:5] + (p[3],))
            return True
        if p[0] in ("byte", "hex2", "chr"):
            e = self.settle(st, lambda e, m: e[0] == "esc")
            m = self.get(st)
            if e is None:
                return False
            if e[0] == "esc" and p[0] == "hex2" and m[2].split("/")[2] == "1x" and is_int(p[1]):
                b = self.byte(st, e[2][0], m[5]) if e[2][0] is not None else None
                if b is not None and st.F.eq(b, p[1]):
                    self.q.append((e[1], st.F.get_mask(p[1]), "\\xHH"))
                    f = m[2].split("/", 3)
                    self.put(st, ("obj", "mon", "/".join((f[0], f[1], "1", f[3])), m[3], m[4], addc(m[5], 1)))
                    return True
            return self.unknown(st, "computed text")
        return self.unknown(st, "computed text")

    def name(self, e):
        return {"lit": "a delimiter", "text": "another stored text", "esc": "quoted text", "tok": "a child", "end": "nothing more"}.get(e[0], "something else")

    def literal(self, st, b):
        while b:
            e = self.settle(st, lambda e, m: False)
            m = self.get(st)
            if e is None:
                return False
            if e[0] == "?":
                return self.unknown(st, e[1])
            if e[0] == "lit":
                if b.startswith(e[1]):
                    b = b[len(e[1]):]
                    self.put(st, ("obj", "mon", e[2], m[3], m[4], C(0))); continue
                return self.fail(st, "writes %r where %r is due" % (b.decode("latin1"), e[1].decode()))
            if e[0] == "esc":
                r = self.escape(st, m, e, b)
                if r is None:
                    return False
                b = b[r:]
                continue
            if e[0] in ("text", "tok") and self.may_be_empty(st, e):
                return self.unknown(st, "whether a text is empty")
            return self.fail(st, "writes %r where %s is due" % (b.decode("latin1"), self.name(e)))
        return True

    def may_be_empty(self, st, e):
        return False

    def escape(self, st, m, e, b):
        """An escape at a position of a quoted text; bytes consumed."""
        q, (base, n) = e[1], e[2]
        f = m[2].split("/", 3)
        stage = f[2]
        at = self.byte(st, base, m[5]) if base is not None else None
        inside = lib.le(st, addc(m[5], 1), n)
        if q == b"'":
            if b[:2] == b"''":
                w, k = "''", 2
                dec = 39
            else:
                self.fail(st, "closes a quoted string early" if inside is not False else "writes %r in a quoted string" % b.decode("latin1")); return None
        else:
            pend = bytes.fromhex(stage[2:]) if stage.startswith("1=") else b""
            if b[:1] != b"\\" and not pend:
                self.fail(st, "closes a quoted string early" if b[:1] == q else "writes %r in a quoted string" % b.decode("latin1")); return None
            t = pend + b
            if len(t) == 1:
                self.put(st, ("obj", "mon", "/".join((f[0], f[1], "1=5c", f[3])), m[3], m[4], m[5])); return len(b)
            if t == b"\\x":
                self.put(st, ("obj", "mon", "/".join((f[0], f[1], "1x", f[3])), m[3], m[4], m[5])); return len(b)
            if t[:2] in SIMPLE:
                w, k, dec = t[:2].decode(), 2 - len(pend), SIMPLE[t[:2]]
            elif re.match(rb"\\x[0-9a-fA-F]{2}", t):
                w, k, dec = t[:4].decode(), 4 - len(pend), int(t[2:4], 16)
            else:
                self.fail(st, "writes %r, which is no escape" % t.decode("latin1")); return None
        if at is None or inside is not True:
            self.unknown(st, "byte that is escaped"); return None
        mk = st.F.get_mask(at)
        self.q.append((q, mk, w))
        if mk != ((dec, dec),):
            self.fail(st, "writes %s for a byte that may be another one" % w); return None
        self.put(st, ("obj", "mon", "/".join((f[0], f[1], "1", f[3])), m[3], m[4], addc(m[5], 1)))
        return k

    def on_emit(self, I, st, text, lossy, x):
        m = self.get(st)
        if m is None:
            return None
        ps = lib.norm_text(I, st, text)
        if lossy and any(p[0] not in ("lit", "hex2") for p in ps):
            self.lossy.add(x.caller)
        if m[2] == "ERR":
            self.fail(st, "goes on writing after the output has failed")
            return [(st, True)]
        self.count += 1
        for p in ps:
            if not self.piece(st, p):
                break
        return [(st, True)]

    def on_fail(self, I, st):
        m = self.get(st)
        if m is not None and m[2] not in ("FAIL", "UNK", "ERR"):
            self.put(st, ("obj", "mon", "ERR"))

    def token(self, st, kind, idx):
        """The recursive renderer is called for V or B of a node."""
        self.count += 1
        if self.get(st)[2] == "ERR":
            self.fail(st, "goes on writing after the output has failed"); return
        if self.get(st)[2].startswith("+"):
            m = self.get(st)
            if kind != "B" or idx is None or not self.eqn(st, idx, m[5]):
                self.fail(st, "writes another child than the one that is due"); return
            self.put(st, ("obj", "mon", m[2][1:], m[3], m[4], C(0))); return
        def want(e, m):
            return e[0] == "tok" and idx is not None and e[2] is not None and self.eqn(st, e[2], idx)
        e = self.settle(st, want)
        m = self.get(st)
        if e is None:
            return
        if e[0] == "?" or idx is None:
            self.unknown(st, e[1] if e[0] == "?" else "child that is written"); return
        if e[0] == "tok" and e[2] is not None and self.eqn(st, e[2], idx):
            if kind == e[1]:
                self.put(st, ("obj", "mon", e[3], m[3], e[4], C(0))); return
            if kind == "B":
                v = self.vacuous(st, idx)
                t = self.text(st, self.fld(st, idx, "layout", "prefix"))
                if v or t is not None and st.F.eq(t[1], C(0)):
                    self.put(st, ("obj", "mon", e[3], m[3], e[4], C(0))); return
                self.fail(st, "leaves out the text in front of a value"); return
            self.fail(st, "writes the text in front of the value once more"); return
        if e[0] == "text" or e[0] == "esc":
            self.fail(st, "leaves out stored text"); return
        if e[0] == "tok" and lib.eq(st, e[2], idx) is None:
            self.unknown(st, "which child is written"); return
        self.fail(st, "writes a child where %s is due" % self.name(e))

    def finish(self, st):
        """None if everything was written, 'err' if the output failed, else ('bad'|'?', why)."""
        m = self.get(st)
        if m[2] == "ERR":
            return "err"
        if m[2].startswith("+"):
            return ("bad", "leaves out a value")
        if m[2] not in ("FAIL", "UNK"):
            e = self.settle(st, lambda e, m: False)
            m = self.get(st)
            if e is not None:
                if e[0] == "end":
                    return None
                if e[0] == "?":
                    return ("?", e[1])
                return ("bad", "ends where %s is due" % self.name(e))
        return ("bad" if m[2] == "FAIL" else "?", m[3])

# ------------------------------------------------------------ the renderers of the crate
def renderers(p):
    """{'display': body of Document's Display, 'write_to': body of Document::write_to}"""
    a = lib.api(p)
    out = {}
    for (ty, tr, m), key in a.items():
        if ty == "Document" and tr == "Display" and m == "fmt":
            out["display"] = key
        if ty == "Document" and tr is None and m == "write_to":
            out["write_to"] = key
    return out

def entries(p, root):
    """Functions through which the recursion is entered from this root."""
    cut = p.scc_cut()
    g = p.graph
    seen, todo, out = {root}, [root], []
    while todo:
        k = todo.pop()
        for c in (g.successors(k) if k in g else ()):
            if c in cut and k not in cut and c not in out:
                out.append(c)
            if c not in seen:
                seen.add(c); todo.append(c)
    return out, [k for k in seen if k in cut]

class Rendering:
    """Interprets one renderer: the document level and the recursive functions it enters."""
    def __init__(self, p, root, io_err=False):
        self.p, self.root, self.io_err = p, root, io_err
        self.entry, self.scc = entries(p, root)
        self.quoting = []
        self.called = {}
        self.monitors = []

    def node_of(self, I, st, key, args):
        """Index of the node a renderer is called for, and whether it is to write the text in front ('V', 'B' or None)."""
        f = self.p.fns[key]
        idx, form = None, None
        for a, ti in zip(args, f["locals"][1:1 + f["n_args"]]):
            t = self.p.types[ti]
            inner = self.p.types[self.p.peel(ti)]
            if t["k"] == "ref" and "::raw::" in inner.get("path", "") and idx is None:
                for _ in range(4):
                    if a[0] == "ref" and a[1][0] == "E":
                        idx = a[1][1]; break
                    if a[0] != "ref":
                        break
                    a = I.read(st, a[1], a[2])
            elif inner.get("path", "").endswith("::Id") and t["k"] == "adt" and not t["path"].endswith("Option"):
                i = I.idof(st, a)
                if i is not None and idx is None:
                    idx = addc(i, -1)
            elif t.get("path", "").endswith("Option") and self.p.types[t["args"][0]].get("path", "").endswith("::Id"):
                o = lib.opt(I, st, a)
                if o == "bad":
                    return None, None
                if o is None:
                    form = "B"
                else:
                    form = "V"
                    i = I.idof(st, o)
                    if idx is None:
                        idx = addc(i, -1)
                    elif i is None or not st.F.eq(addc(i, -1), idx):
                        return None, None
        return idx, form

    def contract(self, I, st, k, args, atys, dty):
        mo = I.monitor
        self.called.setdefault(k, set())
        out = []
        if I.io_err:
            s = st.copy()
            mo.on_fail(I, s)
            out.append((s, I.models.err(dty, ("obj", "ioerr", 0))))
        idx, form = self.node_of(I, st, k, args)
        if mo.get(st)[2] not in ("FAIL", "UNK"):
            if idx is None:
                mo.unknown(st, "node a renderer is called for")
            else:
                form = form or self.forms.get(k, "B")
                self.called[k].add(form)
                mo.token(st, form, idx)
        return [(st, I.models.ok(dty, ("tup", ())))] + out

    def lossy(self):
        return set().union(*[m.lossy for m in self.monitors]) if self.monitors else set()

    def runner(self, top):
        from .tree import Tree
        I = Tree(self.p, limit_s=120)
        I.io_err = self.io_err
        I.roots = I.roots + (MON,)
        I.monitor = Monitor(I, self.quoting)
        self.monitors.append(I.monitor)
        I.cuts.update({k: self.contract for k in self.entry})
        return I

    forms = {}

    def run(self):
        """[(what, I, outcomes)] of the document level and of every recursive function that is called."""
        out = []
        r = self.run_root()
        if r is not None:
            out.append(("document",) + r)
        done = set()
        while True:
            todo = [(k, f) for k, fs in self.called.items() for f in sorted(fs) if (k, f) not in done]
            if not todo:
                return out
            done.add(todo[0])
            r = self.run_entry(*todo[0])
            if r is not None:
                out.append((lib.last(self.p.fns[todo[0][0]]["path"]) if False else "::".join(self.p.fns[todo[0][0]]["path"].split("::")[-2:]) + {"V": " with the text in front", "B": ""}[todo[0][1]],) + r)

    def run_root(self):
        I = self.runner(self.root)
        f = self.p.fns[self.root]
        args = [("sym", ("a%d" % i,), f["locals"][i + 1]) for i in range(f["n_args"])]
        st = I.start()
        d = I.expand(st, args[0])
        x = None
        ty = doc_ty(self.p)
        for n, ti in self.p.types[ty]["v"][0]["f"]:
            if n == "root":
                x = I.idof(st, ("sym", ("a0", "*", "root"), ti))
        if x is None:
            return None
        st.mem[MON] = mon("D", addc(x, -1))
        return self.go(I, self.root, args, st)

    def run_entry(self, key, form):
        """[(form, results)] of a recursive renderer on a generic node."""
        I = self.runner(key)
        f = self.p.fns[key]
        st = I.start()
        idt = None
        args = []
        ty = self.p.id_ty() if hasattr(self.p, "id_ty") else None
        idv = None
        for i, ti in enumerate(f["locals"][1:1 + f["n_args"]]):
            t = self.p.types[ti]
            inner = self.p.types[self.p.peel(ti)]
            if t["k"] == "ref" and inner.get("path", "").endswith("::raw::Raw"):
                args.append(("node", ti))
            elif t.get("path", "").endswith("::Id"):
                args.append(("id", ti))
            elif t.get("path", "").endswith("Option") and self.p.types[t["args"][0]].get("path", "").endswith("::Id"):
                args.append(("opt", ti, t["args"][0]))
            elif t["k"] == "ref" and "::raw::" in inner.get("path", ""):
                args.append(("part", ti, inner["path"].split("::")[-1]))
            else:
                args.append(("sym", ("a%d" % i,), ti))
        idty = next(i for i, t in enumerate(self.p.types) if t["k"] == "adt" and t["path"].endswith("data::Id") and "v" in t)
        idv = I.expand(st, ("sym", ("node",), idty))
        i = I.idof(st, idv)
        x = addc(i, -1)
        # path of the kind inside an entry
        et = self.p.types[I.entry_ty()]
        rawi = [j for j, (n, _) in enumerate(et["v"][0]["f"]) if n == "raw"][0]
        I.read(st, ("E", x))
        for j, a in enumerate(args):
            if a[0] == "node":
                args[j] = ("ref", ("E", x), (("f", None, rawi),))
            elif a[0] == "id":
                args[j] = idv
            elif a[0] == "opt":
                args[j] = I.models.some(a[1], idv) if form == "V" else I.models.none(a[1])
            elif a[0] == "part":
                rt = self.p.types[I._raw_ty()]
                v = [q for q, w in enumerate(rt["v"]) if w["name"] == a[2]]
                if not v:
                    return None
                st.F.var[("E", x, "raw")] = v[0]
                args[j] = ("ref", ("E", x), (("f", None, rawi), ("f", v[0], 0)))
        st.mem[MON] = mon(form, x)
        return self.go(I, key, args, st)

    def go(self, I, key, args, st):
        from .interp import Budget
        I.failed = None
        try:
            outs = I.run_fn(key, args, st)
        except Budget as e:
            I.failed = str(e); outs = []
        except RecursionError:
            I.failed = "analysis depth"; outs = []
        return I, outs
