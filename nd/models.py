"""Models of library functions for the abstract interpreter.

A model is selected by the name of the called method and the kind of value it is called on, so the
same model serves slices, vectors, strings and their wrappers."""
import os, re, sys
from .dom import *
from . import dom

NONASCII = ((0x80, 0x10FFFF),)
HIGH = ((0x80, 0xFF),)
ASCII = ((0, 0x7F),)
CONTROL = rs((0, 31), (127, 0x9F))
WS_U8 = rs((9, 13), 32)                 # u8::is_ascii_whitespace plus vertical tab is not included there
ASCII_WS = rs(9, 10, 12, 13, 32)
WS_CHAR = rs((9, 13), 32, 0x85, 0xA0, 0x1680, (0x2000, 0x200A), 0x2028, 0x2029, 0x202F, 0x205F, 0x3000)

def _strip(s):
    """Remove generic argument lists from a path, keeping `<impl T>` and the leading `<X as Y>`."""
    out, i, depth = [], 0, 0
    while i < len(s):
        c = s[i]
        if c == "<":
            if s.startswith("<impl ", i) or i == 0:
                # matched bracket, kept with its contents
                j, d = i, 0
                while j < len(s):
                    if s[j] == "<": d += 1
                    if s[j] == ">" and s[j - 1] != "-":
                        d -= 1
                        if d == 0: break
                    j += 1
                out.append("<" + _strip_in(s[i + 1:j]) + ">")
                i = j + 1
                continue
            j, d = i, 0
            while j < len(s):
                if s[j] == "<": d += 1
                if s[j] == ">" and s[j - 1] != "-":
                    d -= 1
                    if d == 0: break
                j += 1
            i = j + 1
            continue
        out.append(c)
        i += 1
    return "".join(out)

def _strip_in(s):
    """Inside of `<X as Y>` or `<impl Y for X>`: strip nested generics."""
    out, i = [], 0
    while i < len(s):
        if s[i] == "<":
            j, d = i, 0
            while j < len(s):
                if s[j] == "<": d += 1
                if s[j] == ">" and s[j - 1] != "-":
                    d -= 1
                    if d == 0: break
                j += 1
            i = j + 1
            continue
        out.append(s[i]); i += 1
    return "".join(out)

def _last(t):
    """Last segment of a type path, keeping references and slices."""
    m = re.match(r"^((?:&(?:'\w+ )?(?:mut )?)*)(.*)$", t.strip())
    pre, b = m.groups()
    pre = re.sub(r"'\w+ ", "", pre)
    if b.startswith("["):
        return pre + b
    return pre + b.split("::")[-1].strip()

_norm = {}
def norm(path):
    """Short form of a definition path: `Vec::push`, `BStr as Index::index`, `usize::wrapping_add`."""
    r = _norm.get(path)
    if r is not None:
        return r
    p = re.sub(r"::(?=<)", "", _strip(path)) if False else _strip(path).replace("::::", "::")
    m = re.match(r"^<(.*) as (.*)>::(\w+)$", p)
    if m:
        r = "%s as %s::%s" % (_last(m.group(1)), _last(m.group(2)), m.group(3))
    else:
        m = re.match(r"^.*<impl (.*) for (.*)>::(\w+)$", p)
        if m:
            r = "%s as %s::%s" % (_last(m.group(2)), _last(m.group(1)), m.group(3))
        else:
            m = re.match(r"^.*<impl (.*)>::(\w+)$", p)
            if m:
                r = "%s::%s" % (_last(m.group(1)), m.group(2))
            else:
                r = "::".join(p.split("::")[-2:])
    _norm[path] = r
    return r

class Models:
    def __init__(self, I):
        self.I = I
        self.store_check = None
        self.user_iter = 0

    # ------------------------------------------------------------ helpers
    def deref(self, st, v):
        n = 0
        while True:
            n += 1
            if n > 20:
                return ("top", "deref")
            if v[0] == "ref":
                v = self.I.read(st, v[1], v[2])
            elif v[0] == "cref":
                v = self.I.expand(st, v[1])
            elif v[0] == "sym" and self.I.p.types[v[2]]["k"] in ("ref", "ptr"):
                pt = self.I.p.types[v[2]]["e"]
                if self.I.is_dst_bytes(pt):
                    return self.I.text(st, v[1] + ("*",))
                if self.I.is_dst_list(pt):
                    return self.I.expand(st, ("sym", v[1] + ("*",), pt))
                v = self.I.read(st, ("P", v[1] + ("*",), pt))
            else:
                return self.I.expand(st, v)

    def innermost(self, st, v):
        """The innermost reference: (cell, path) or None."""
        r = None
        n = 0
        while n < 20:
            n += 1
            if v[0] == "ref":
                r = v
                v = self.I.read(st, v[1], v[2])
            elif v[0] == "sym" and self.I.p.types[v[2]]["k"] in ("ref", "ptr"):
                pt = self.I.p.types[v[2]]["e"]
                if self.I.is_dst_bytes(pt) or self.I.is_dst_list(pt):
                    break
                r = ("ref", ("P", v[1] + ("*",), pt), ())
                v = self.I.read(st, r[1], ())
            else:
                break
        return r

    def as_text(self, st, v):
        v = self.deref(st, v)
        if v[0] == "bytes":
            return v
        if v[0] == "arr":
            return self.arr_bytes(v)
        if v[0] == "sym":
            k = self.I.p.types[v[2]]["k"]
            if k in ("param", "alias"):
                return self.I.text(st, v[1] + ("text",))
        if v[0] == "obj" and v[1] == "item":
            return self.I.text(st, (v,) + ("text",))
        if v[0] == "list" and not v[1]:
            return ("bytes", ())
        return None

    def arr_bytes(self, v):
        return self.cat(*[("bytes", (("lit", bytes([x[1]])),)) if is_const(x) else ("bytes", (("byte", x),)) for x in v[1]])

    def cat(self, *ts):
        out = []
        for t in ts:
            for p in t[1]:
                if p[0] == "lit" and not p[1]:
                    continue
                if p[0] == "sub" and p[2] == p[3]:
                    continue
                if out and p[0] == "lit" and out[-1][0] == "lit":
                    out[-1] = ("lit", out[-1][1] + p[1])
                elif out and p[0] == "sub" and out[-1][0] == "sub" and out[-1][1] == p[1] and out[-1][3] == p[2]:
                    out[-1] = ("sub", p[1], out[-1][2], p[3])
                elif out and p[0] == "byte" and is_const(p[1]):
                    out.append(("lit", bytes([p[1][1]])))
                else:
                    out.append(p)
        return ("bytes", tuple(out))

    def piece_len(self, st, p):
        k = p[0]
        if k == "sub": return sub(p[3], p[2])
        if k == "lit": return C(len(p[1]))
        if k == "byte": return C(1)
        if k == "hex2": return C(2)
        if k in ("rep", "star", "alt"):
            if not is_const(p[2]):
                st.F.assume_le(p[2], C(LENMAX))
            return p[2]
        n = self.I.newint(st)
        st.F.assume_le(n, C(LENMAX))
        return n

    def len_of(self, st, v):
        if v[0] == "arr":
            return C(len(v[1]))
        if v[0] == "bytes":
            n = C(0)
            for p in v[1]:
                n = add(n, self.piece_len(st, p))
            return n
        if v[0] == "list":
            n = C(0)
            for p in v[1]:
                if p[0] == "el": n = addc(n, 1)
                elif p[0] == "sl": n = add(n, sub(p[3], p[2]))
                else:
                    x = self.I.newint(st)
                    st.F.assume_le(x, C(LENMAX))
                    n = add(n, x)
            return n
        return None

    def locate(self, st, v, pos):
        """(index of piece, offset inside it) of position pos in a text, or None if it is not determined."""
        off = pos
        for k, p in enumerate(v[1]):
            n = self.piece_len(st, p) if p[0] != "any" else None
            if n is None:
                return (k, off) if st.F.eq(off, C(0)) else None
            if st.F.le(addc(off, 1), n) and st.F.le(C(0), off):
                return k, off
            if not st.F.le(n, off):
                if st.F.eq(off, C(0)):
                    return k, off
                return None
            off = sub(off, n)
        if st.F.eq(off, C(0)):
            return len(v[1]), C(0)
        return None

    def byte_at(self, st, v, pos):
        if v[0] == "arr":
            v = self.arr_bytes(v)
        if v[0] != "bytes":
            return None
        l = self.locate(st, v, pos)
        if l is None or l[0] >= len(v[1]):
            return self.I.newbyte(st)
        p, off = v[1][l[0]], l[1]
        if p[0] == "sub":
            b = st.F.byte_at(p[1], add(p[2], off))
            return b if b is not None else self.I.newbyte(st)
        if p[0] == "lit" and is_const(off):
            return C(p[1][off[1]])
        if p[0] == "lit":
            return self.I.newbyte(st, rs(*set(p[1])))
        if p[0] in ("byte", "rep"):
            return p[1]
        return self.I.newbyte(st)

    def subslice(self, st, v, lo, hi, from_end=False):
        """Array/slice pattern subslice."""
        if v[0] == "arr":
            n = len(v[1])
            return ("arr", v[1][lo:(n - hi if from_end else hi)])
        n = self.len_of(st, v)
        if n is None:
            return ("top", "subslice")
        return self.slice(st, v, C(lo), addc(n, -hi) if from_end else C(hi))

    def slice(self, st, v, lo, hi):
        """v[lo..hi), bounds already checked."""
        if v[0] == "arr":
            if is_const(lo) and is_const(hi):
                return ("arr", v[1][lo[1]:hi[1]])
            v = self.arr_bytes(v)
        if v[0] == "list":
            if st.F.eq(lo, C(0)) and st.F.eq(hi, self.len_of(st, v)):
                return v
            if len(v[1]) == 1 and v[1][0][0] == "sl":
                p = v[1][0]
                return ("list", (("sl", p[1], add(p[2], lo), add(p[2], hi), p[4]),))
            out, off = [], C(0)
            for p in v[1]:
                n = C(1) if p[0] == "el" else sub(p[3], p[2]) if p[0] == "sl" else None
                if n is None:
                    return ("top", "list slice")
                end = add(off, n)
                if st.F.le(end, lo) or st.F.le(hi, off):
                    pass
                elif st.F.le(lo, off) and st.F.le(end, hi):
                    out.append(p)
                elif p[0] == "sl":
                    a = p[2] if st.F.le(lo, off) else add(p[2], sub(lo, off)) if st.F.le(off, lo) else None
                    b = p[3] if st.F.le(end, hi) else add(p[2], sub(hi, off)) if st.F.le(hi, end) else None
                    if a is None or b is None:
                        return ("top", "list slice")
                    out.append(("sl", p[1], a, b, p[4]))
                else:
                    return ("top", "list slice")
                off = end
            return ("list", tuple(out))
        if v[0] != "bytes":
            return ("top", "slice of " + v[0])
        F = st.F
        if lo == hi:
            return ("bytes", ())
        n = self.len_of(st, v) if all(p[0] != "any" for p in v[1]) else None
        if n is not None and F.eq(lo, C(0)) and F.eq(hi, n):
            return v
        if len(v[1]) == 1 and v[1][0][0] == "sub":
            p = v[1][0]
            return ("bytes", (("sub", p[1], add(p[2], lo), add(p[2], hi)),))
        if len(v[1]) == 1 and v[1][0][0] == "lit" and is_const(lo) and is_const(hi):
            return ("bytes", (("lit", v[1][0][1][lo[1]:hi[1]]),))
        a, b = self.locate(st, v, lo), self.locate(st, v, hi)
        if a is None or b is None:
            return ("bytes", (("any", "slice"),))
        out = []
        for k in range(a[0], min(b[0] + 1, len(v[1]))):
            p = v[1][k]
            s = a[1] if k == a[0] else C(0)
            e = b[1] if k == b[0] else None
            if p[0] == "sub":
                out.append(("sub", p[1], add(p[2], s), p[3] if e is None else add(p[2], e)))
            elif p[0] == "lit" and is_const(s) and (e is None or is_const(e)):
                out.append(("lit", p[1][s[1]:(None if e is None else e[1])]))
            elif p[0] == "rep":
                out.append(("rep", p[1], sub(p[2] if e is None else e, s)))
            elif s == C(0) and e is None:
                out.append(p)
            elif e == C(0):
                pass
            else:
                return ("bytes", (("any", "slice"),))
        return self.cat(("bytes", tuple(out)))

    # ---- lists
    def list_at(self, st, v, idx):
        off = idx
        for p in v[1]:
            n = C(1) if p[0] == "el" else sub(p[3], p[2]) if p[0] == "sl" else None
            if n is None:
                return None
            if st.F.le(addc(off, 1), n) and st.F.le(C(0), off):
                if p[0] == "el":
                    return self.I.expand(st, p[1])
                return self.elem(st, p, add(p[2], off))
            if not st.F.le(n, off):
                if len(v[1]) == 1 and p[0] == "sl":
                    return self.elem(st, p, add(p[2], off))
                return None
            off = sub(off, n)
        return None

    def elem(self, st, p, k):
        return self.I.expand(st, ("sym", p[1] + (("at", k),), p[4]))

    def list_set(self, st, v, idx, f):
        off = idx
        for k, p in enumerate(v[1]):
            n = C(1) if p[0] == "el" else sub(p[3], p[2]) if p[0] == "sl" else None
            if n is None:
                return None
            if st.F.le(addc(off, 1), n) and st.F.le(C(0), off):
                if p[0] == "el":
                    new = (("el", f(p[1])),)
                else:
                    i = add(p[2], off)
                    new = (("sl", p[1], p[2], i, p[4]), ("el", f(self.elem(st, p, i))), ("sl", p[1], addc(i, 1), p[3], p[4]))
                return self.lnorm(st, ("list", v[1][:k] + new + v[1][k + 1:]))
            if not st.F.le(n, off):
                return None
            off = sub(off, n)
        return None

    def lnorm(self, st, v):
        out = []
        for p in v[1]:
            if p[0] == "sl" and (p[2] == p[3] or st.F.eq(p[2], p[3])):
                continue
            if out and p[0] == "sl" and out[-1][0] == "sl" and out[-1][1] == p[1] and out[-1][3] == p[2]:
                out[-1] = ("sl", p[1], out[-1][2], p[3], p[4])
                continue
            if p[0] == "el":
                b = self.element_of(p[1])
                if b is not None:
                    if out and out[-1][0] == "sl" and out[-1][1] == b[0] and st.F.eq(out[-1][3], b[1]):
                        out[-1] = ("sl", b[0], out[-1][2], addc(b[1], 1), b[2])
                        continue
                    p = ("sl", b[0], b[1], addc(b[1], 1), b[2])
            out.append(p)
        return ("list", tuple(out))

    def element_of(self, v):
        """(list name, index, element type) when v is an initial element of a list of ids."""
        ty = v[1] if v[0] == "adt" else v[2] if v[0] == "sym" else None
        o = v[1] if v[0] == "sym" else None
        while v[0] == "adt" and len(v[3]) == 1:
            v = v[3][0]
        if o is None and is_int(v) and mono(v) and not v[1]:
            o = self.I.origin.get(mono(v))
        if o is None and v[0] == "sym":
            o = v[1]
        if type(o) is not tuple:
            return None
        n = len(o)
        while n and not (type(o[n - 1]) is tuple and len(o[n - 1]) == 2 and o[n - 1][0] == "at"):
            n -= 1
        if not n or len(o) - n > 3:
            return None
        return o[:n - 1], o[n - 1][1], ty

    def fold_lists(self, st):
        f = getattr(self.I, "folder", None)
        if f is not None:
            f(st)

    # ------------------------------------------------------------ equality of texts
    def eqkey(self, st, a, b):
        """(virtual base, position) for the equality of a text of a list element with another text."""
        for x, y in ((a, b), (b, a)):
            if len(x[1]) == 1 and x[1][0][0] == "sub":
                hole = []
                nm = self._hole(x[1][0][1], hole)
                if len(hole) == 1 and x[1][0][2] == C(0) and not any(h for h in self._ats(y)):
                    return ("eq", nm, y), hole[0]
        return None

    def _ats(self, v):
        if type(v) is tuple:
            if len(v) == 2 and v[0] == "at":
                yield v
            else:
                for x in v:
                    yield from self._ats(x)

    def _hole(self, nm, hole):
        """Replace the index of the only list element in a name by a hole."""
        if type(nm) is tuple:
            if len(nm) == 2 and nm[0] == "at" and is_int(nm[1]):
                if nm[1] not in hole:
                    hole.append(nm[1])
                return ("at", "_")
            if is_int(nm):
                # identifiers: resolve to the name they stand for
                s = mono(nm)
                o = self.I.origin.get(s) if s else None
                if o is not None:
                    return ("id", nm[1], self._hole(o, hole))
                return nm
            return tuple(self._hole(x, hole) if type(x) is tuple else x for x in nm)
        return nm

    def text_eq(self, st, a, b):
        """[(state, bool)]"""
        if a == b:
            return [(st, True)]
        F = st.F
        la = b"".join(p[1] for p in a[1]) if all(p[0] == "lit" for p in a[1]) else None
        lb = b"".join(p[1] for p in b[1]) if all(p[0] == "lit" for p in b[1]) else None
        if la is not None and lb is not None:
            return [(st, la == lb)]
        if la is not None:
            a, b, la, lb = b, a, lb, la
        if lb is not None and len(a[1]) == 1 and a[1][0][0] == "sub":
            p = a[1][0]
            known = F.eqs.get(("teq", a, b))
            if known is not None:
                return [(st, known)]
            out = []
            s = st.copy()
            ok = s.F.assume_eq(sub(p[3], p[2]), C(len(lb)))
            if ok:
                for i, ch in enumerate(lb):
                    v = s.F.byte_at(p[1], addc(p[2], i))
                    if v is None or not s.F.assume_eq(v, C(ch)):
                        ok = False
                        break
            if ok:
                s.F.eqs[("teq", a, b)] = True
                out.append((s, True))
            s = st.copy()
            # unequal: if the length is known to agree, a single byte decides
            if ok:
                if s.F.eq(sub(p[3], p[2]), C(len(lb))):
                    diff = [i for i, ch in enumerate(lb) if s.F.get_mask(s.F.byte_at(p[1], addc(p[2], i))) != ((ch, ch),)]
                    if not diff:
                        return out
                    if len(diff) == 1:
                        if not s.F.assume_ne(s.F.byte_at(p[1], addc(p[2], diff[0])), C(lb[diff[0]])):
                            return out
                s.F.eqs[("teq", a, b)] = False
            out.append((s, False))
            return out
        x, y = sorted((a, b), key=repr)
        k = self.eqkey(st, a, b)
        if k is not None:
            v = F.find_byte(k[0], k[1])
            if v is None:
                m = F.seg_mask_at(k[0], k[1])
                m = BOOL if m is None else rs_inter(m, BOOL)
                t = fresh("m")
                F.mask[t] = m
                v = S(t)
                F.byte[(k[0], k[1])] = v
            return [(s, bool(r)) for s, r in ((s, not z) for s, z in self.I.compare(st, "Eq", v, C(0)))]
        key = ("teq", x, y)
        known = F.eqs.get(key)
        if known is not None:
            return [(st, known)]
        # texts of different length differ
        na, nb = self.len_of(st, a), self.len_of(st, b)
        out = []
        s = st.copy()
        if all(p[0] != "any" for p in a[1] + b[1]) and not s.F.assume_eq(na, nb):
            return [(st, False)]
        s.F.eqs[key] = True
        out.append((s, True))
        s = st.copy()
        s.F.eqs[key] = False
        out.append((s, False))
        return out

    # ------------------------------------------------------------ constructors
    def ctor(self, st, t, args, dty):
        """Enum and struct constructors used as functions."""
        path = t.get("path")
        if not path or "::" not in path:
            return None
        base, last = path.rsplit("::", 1)
        if "prelude::" in base and dty is not None and self.I.p.types[dty].get("ak") == "enum":
            t = self.I.p.types[dty]
            for vi, v in enumerate(t.get("v", ())):
                if v["name"] == last and len(v["f"]) == len(args):
                    return [(st, ("adt", dty, vi, tuple(args)))]
        for i, x in enumerate(self.I.p.types):
            if x["k"] == "adt" and "v" in x:
                if x["path"] == base and x["ak"] == "enum":
                    for vi, v in enumerate(x["v"]):
                        if v["name"] == last and (dty is None or dty == i or self.I.p.types[dty]["k"] in ("param", "alias")) and len(v["f"]) == len(args):
                            return [(st, ("adt", i, vi, tuple(args)))]
                if x["path"] == path and x["ak"] == "struct" and len(x["v"][0]["f"]) == len(args) and (dty is None or dty == i):
                    return [(st, ("adt", i, 0, tuple(args)))]
        return None

    def option(self, dty):
        return dty

    def none(self, dty):
        return ("adt", dty, self.I.vindex(dty, "None"), ())

    def some(self, dty, v):
        return ("adt", dty, self.I.vindex(dty, "Some"), (v,))

    def ok(self, dty, v):
        return ("adt", dty, self.I.vindex(dty, "Ok"), (v,))

    def err(self, dty, v):
        return ("adt", dty, self.I.vindex(dty, "Err"), (v,))

    def put(self, st, ref, v):
        r = self.innermost(st, ref)
        if r is None:
            self.I.note(st, "write through a value")
            return
        self.I.write(st, r[1], r[2], v)

    # ------------------------------------------------------------ dispatch
    def dispatch(self, st, cal, args, atys, dty, caller, line):
        if cal.get("local") and cal.get("kind") != "unresolved":
            return None
        path = cal.get("rpath") or cal.get("path")
        if path is None:
            return None
        n = norm(path)
        m = n.split("::")[-1]
        f = getattr(self, "p_" + re.sub(r"\W+", "_", n).strip("_"), None)
        if f is None:
            f = getattr(self, "m_" + m, None)
        if f is None:
            return None
        x = Call(self, st, cal, args, atys, dty, caller, line, n, m, path)
        try:
            return f(x)
        except (KeyError, IndexError, TypeError, ValueError, AttributeError) as e:
            if os.environ.get("ND_DEBUG"):
                import traceback
                sys.stderr.write(traceback.format_exc()+"\n" if os.environ["ND_DEBUG"] == "2" else traceback.format_exc().splitlines()[-1]+"\n")
                print("in model", n, [a[0] for a in args])
            self.I.note(st, "model of " + n)
            return self.I.havoc(st, args, atys, dty)

    # ------------------------------------------------------------ numbers
    def _int2(self, x):
        a, b = x.args[0], x.args[1]
        if a[0] in ("ref", "cref"): a = self.deref(x.st, a)
        if b[0] in ("ref", "cref"): b = self.deref(x.st, b)
        return a, b

    def _is_id(self, t):
        return is_int(t) and t[2] and KIND.get(mono(t) or 0) == "id"

    def _arith(self, x, op, mode):
        a, b = self._int2(x)
        if not (is_int(a) and is_int(b)):
            return None
        ti = x.atys[0]
        r = add(a, b) if op == "Add" else sub(a, b) if op == "Sub" else None
        if r is not None and (self._is_id(a) or self._is_id(b)) and mode in ("wrap", "sat"):
            return [(x.st, r)]
        out = []
        lo, hi = self.I.trange(ti)
        for s, v, o in self.I.arith(x.st, op, a, b, ti):
            if mode == "wrap":
                out.append((s, v))
            elif mode == "checked":
                out.append((s, self.none(x.dty) if o else self.some(x.dty, v)))
            elif mode == "sat":
                if not o:
                    out.append((s, v))
                elif op == "Sub":
                    out.append((s, C(int(lo))))
                else:
                    out.append((s, C(int(hi))))
            elif mode == "over":
                out.append((s, ("tup", (v, ("b", o)))))
        return out

    def m_wrapping_add(self, x): return self._arith(x, "Add", "wrap")
    def m_wrapping_sub(self, x): return self._arith(x, "Sub", "wrap")
    def m_wrapping_mul(self, x): return self._arith(x, "Mul", "wrap")
    def m_saturating_add(self, x): return self._arith(x, "Add", "sat")
    def m_saturating_sub(self, x): return self._arith(x, "Sub", "sat")
    def m_saturating_mul(self, x): return self._arith(x, "Mul", "sat")
    def m_checked_add(self, x): return self._arith(x, "Add", "checked")
    def m_checked_sub(self, x): return self._arith(x, "Sub", "checked")
    def m_checked_mul(self, x): return self._arith(x, "Mul", "checked")
    def m_overflowing_add(self, x): return self._arith(x, "Add", "over")
    def m_overflowing_sub(self, x): return self._arith(x, "Sub", "over")
    def m_unchecked_add(self, x): return self._arith(x, "Add", "wrap")
    def m_unchecked_sub(self, x): return self._arith(x, "Sub", "wrap")
    def m_add_with_overflow(self, x): return self._arith(x, "Add", "over")
    def m_sub_with_overflow(self, x): return self._arith(x, "Sub", "over")

    def m_abs_diff(self, x):
        a, b = self._int2(x)
        return [(s, sub(b, a) if lt else sub(a, b)) for s, lt in self.I.compare(x.st, "Lt", a, b)]

    def _minmax(self, x, mx):
        a, b = self._int2(x)
        if not (is_int(a) and is_int(b)):
            return None
        return [(s, (b if lt else a) if mx else (a if lt else b)) for s, lt in self.I.compare(x.st, "Le", a, b)]

    def m_min(self, x): return self._minmax(x, False)
    def m_max(self, x): return self._minmax(x, True)
    def m_integer_min(self, x): return self._minmax(x, False)
    def m_integer_max(self, x): return self._minmax(x, True)

    def m_forward_unchecked(self, x): return self._arith(x, "Add", "wrap")

    def _cls(self, x, mask):
        v = self.deref(x.st, x.args[0])
        if not is_int(v):
            return None
        m = x.st.F.get_mask(v)
        out = []
        yes, no = rs_inter(m, mask), rs_minus(m, mask)
        s = mono(v)
        for b, k in ((True, yes), (False, no)):
            if not k:
                continue
            t = x.st.copy()
            if s and s in t.F.mask:
                t.F.mask[s] = rs_shift(k, -v[1])
            out.append((t, ("b", b)))
        return out

    def m_is_ascii_control(self, x): return self._cls(x, rs((0, 31), 127))
    def m_is_control(self, x): return self._cls(x, CONTROL)
    def m_is_ascii_digit(self, x): return self._cls(x, ((48, 57),))
    def m_is_ascii_hexdigit(self, x): return self._cls(x, rs((48, 57), (65, 70), (97, 102)))
    def m_is_ascii_alphabetic(self, x): return self._cls(x, rs((65, 90), (97, 122)))
    def m_is_ascii_alphanumeric(self, x): return self._cls(x, rs((48, 57), (65, 90), (97, 122)))
    def m_is_ascii_lowercase(self, x): return self._cls(x, ((97, 122),))
    def m_is_ascii_uppercase(self, x): return self._cls(x, ((65, 90),))
    def m_is_ascii_punctuation(self, x): return self._cls(x, rs((33, 47), (58, 64), (91, 96), (123, 126)))
    def m_is_ascii_graphic(self, x): return self._cls(x, ((33, 126),))
    def m_is_ascii_whitespace(self, x): return self._cls(x, ASCII_WS)
    def m_is_whitespace(self, x): return self._cls(x, WS_CHAR)
    def m_is_ascii(self, x):
        v = self.deref(x.st, x.args[0])
        return self._cls(x, ASCII) if is_int(v) else None

    def _casemap(self, x, lo, hi, d):
        v = self.deref(x.st, x.args[0])
        if not is_int(v):
            return None
        out = []
        for s, r in self._cls(x, ((lo, hi),)):
            out.append((s, addc(v, d) if r[1] else v))
        return out
    def m_to_ascii_lowercase(self, x): return self._casemap(x, 65, 90, 32)
    def m_to_ascii_uppercase(self, x): return self._casemap(x, 97, 122, -32)

    def m_to_digit(self, x):
        v, radix = self.deref(x.st, x.args[0]), x.args[1]
        if not is_int(v) or not is_int(radix) or not is_const(radix) or not 2 <= radix[1] <= 36:
            return None
        k = radix[1]
        classes = [((48, 47 + min(k, 10)), 48)]
        if k > 10:
            classes += [((97, 86 + k), 87), ((65, 54 + k), 55)]
        m, s = x.st.F.get_mask(v), mono(v)
        out, rest = [], m
        for r, base in classes:
            rest = rs_minus(rest, (r,))
            yes = rs_inter(m, (r,))
            if yes:
                t = x.st.copy()
                if s and s in t.F.mask:
                    t.F.mask[s] = rs_shift(yes, -v[1])
                out.append((t, self.some(x.dty, addc(v, -base))))
        if rest:
            t = x.st.copy()
            if s and s in t.F.mask:
                t.F.mask[s] = rs_shift(rest, -v[1])
            out.append((t, self.none(x.dty)))
        return out

    def m_from_u32(self, x):
        v = x.args[0]
        if not is_int(v):
            return None
        out = []
        lo, hi = x.st.F.bounds(v)
        if KIND.get(mono(v) or 0, "z") == "z" and v[2]:
            s = x.st.copy()
            c = self.I.newbyte(s, CHARS)
            s.F.misc[("char-of", v)] = c
            if self.I.exprs:
                s.F.misc[("expr", c)] = ("Add", self.I.expr_of(s, v), ("sum", 0, ()))
            out.append((s, self.some(x.dty, c)))
            if hi > 0xD7FF:
                out.append((x.st.copy(), self.none(x.dty)))
            return out
        m = x.st.F.get_mask(v)
        for ok, k in ((True, rs_inter(m, CHARS)), (False, rs_minus(m, CHARS))):
            if not k: continue
            s = x.st.copy()
            if mono(v) and mono(v) in s.F.mask:
                s.F.mask[mono(v)] = rs_shift(k, -v[1])
            out.append((s, self.some(x.dty, v) if ok else self.none(x.dty)))
        return out

    def m_cold_path(self, x): return [(x.st, ("tup", ()))]
    def m_assert_inhabited(self, x): return [(x.st, ("tup", ()))]
    def m_precondition_check(self, x): return [(x.st, ("tup", ()))]
    def m_size_of(self, x): return [(x.st, self.I.newint(x.st))]
    def m_black_box(self, x): return [(x.st, x.args[0])]
    def m_discriminant_value(self, x):
        return None

    # NonZero
    def p_NonZero_get(self, x):
        v = self.deref(x.st, x.args[0])
        if is_int(v): return [(x.st, v)]
        return [(x.st, v[3][0])] if v[0] == "adt" else None

    def p_NonZero_new(self, x):
        v = x.args[0]
        if not is_int(v):
            return None
        t = self.I.p.types[x.dty]
        nz = t["v"][self.I.vindex(x.dty, "Some")]["f"][0][1]
        if self._is_id(v):
            return [(x.st, self.some(x.dty, ("adt", nz, 0, (v,))))]
        out = []
        for s, z in self.I.compare(x.st, "Eq", v, C(0)):
            out.append((s, self.none(x.dty) if z else self.some(x.dty, ("adt", nz, 0, (v,)))))
        return out

    def p_NonZero_new_unchecked(self, x):
        return [(x.st, ("adt", x.dty, 0, (x.args[0],)))]

    def _nz(self, st, v):
        v = self.deref(st, v)
        return v[3][0] if v[0] == "adt" and len(v[3]) == 1 else v

    def p_NonZero_as_PartialEq_eq(self, x):
        a, b = self._nz(x.st, x.args[0]), self._nz(x.st, x.args[1])
        return [(s, ("b", r)) for s, r in self.I.compare(x.st, "Eq", a, b)]

    # ------------------------------------------------------------ conversions that keep the value
    def _same(self, x):
        v = x.args[0]
        t = self.as_text(x.st, v)
        if t is not None:
            return [(x.st, t)]
        d = self.deref(x.st, v)
        if d[0] in ("list", "bytes"):
            return [(x.st, d)]
        return None

    m_as_bytes = _same
    m_as_bstr = _same
    m_as_slice = _same
    m_as_str = _same
    m_to_vec = _same
    m_to_owned = _same
    m_into_boxed_slice = _same
    m_into_bytes = _same
    m_into_vec = _same
    m_borrow = _same
    m_from_utf8_unchecked = _same
    m_as_mut_slice = None
    p_BStr_new = _same
    p_AsRef_as_ref = _same
    p_ToString_to_string = _same

    def m_as_ref(self, x):
        t = self._same(x)
        if t is not None:
            return t
        return None

    def m_deref(self, x):
        v = self.deref(x.st, x.args[0])
        if v[0] in ("bytes", "list"):
            return [(x.st, v)]
        if x.n.startswith("Box"):
            return None
        if v[0] == "obj" and v[1] == "cow":
            return [(x.st, v[2])]
        t = self.as_text(x.st, v)
        return [(x.st, t)] if t is not None else None

    def m_deref_mut(self, x):
        r = self.innermost(x.st, x.args[0])
        v = self.deref(x.st, x.args[0])
        if r is not None and v[0] in ("bytes", "list"):
            return [(x.st, r)]
        return None
    m_as_mut_slice = m_deref_mut
    m_as_mut = m_deref_mut

    def m_into(self, x):
        v = self.deref(x.st, x.args[0]) if x.args[0][0] in ("ref", "cref") else x.args[0]
        if v[0] in ("bytes", "list"):
            return [(x.st, v)]
        if x.cal.get("kind") == "unresolved":
            # a value of a type parameter converted into a known type
            if v[0] == "adt" and x.dty is not None and v[1] == x.dty:
                return [(x.st, v)]
            dt = self.I.p.types[x.dty]
            if v[0] == "adt" and dt["k"] == "adt" and dt.get("v"):
                for vi, var in enumerate(dt["v"]):
                    if len(var["f"]) == 1 and var["f"][0][1] == v[1]:
                        return [(x.st, ("adt", x.dty, vi, (v,)))]
            if v[0] == "sym" and dt["k"] == "adt":
                return [(x.st, ("sym", v[1] + ("into", dt["path"]), x.dty))]
        return None

    def m_from(self, x):
        v = x.args[0]
        if is_int(v) and x.dty is not None and self.I.p.types[x.dty]["k"] in ("uint", "int", "char"):
            return [(x.st, v)]
        if v[0] == "b" and self.I.p.types[x.dty]["k"] in ("uint", "int"):
            return [(x.st, C(int(v[1])))]
        d = self.deref(x.st, v) if v[0] in ("ref", "cref") else v
        if d[0] == "bytes" and x.dty is not None and (self.I.is_bytes_ty(x.dty) or self.I.p.types[x.dty]["k"] == "adt" and self.I.p.types[x.dty]["path"] in ("std::boxed::Box", "std::string::String", "std::vec::Vec", "std::sync::Arc")):
            return [(x.st, d)]
        return None

    def m_try_from(self, x):
        v = x.args[0]
        if is_int(v) and x.dty is not None:
            t = self.I.p.types[x.dty]
            okf = [q for q in t["v"] if q["name"] == "Ok"]
            if okf:
                ti = okf[0]["f"][0][1]
                lo, hi = self.I.trange(ti)
                out = []
                s = x.st.copy()
                if s.F.assume_le(C(int(lo)), v) and s.F.assume_le(v, C(int(hi))):
                    out.append((s, self.ok(x.dty, v)))
                a, b = x.st.F.bounds(v)
                if a < lo or b > hi:
                    out.append((x.st.copy(), self.err(x.dty, ("top", "TryFromIntError"))))
                return out
        return None

    def m_clone(self, x):
        v = self.deref(x.st, x.args[0])
        if v[0] in ("bytes", "i", "b", "hash", "slab", "smap", "arr", "list", "clo", "fn", "obj"):
            return [(x.st, v)]
        if v[0] == "adt" and x.dty is not None and self.I.p.types[x.dty].get("copy"):
            return [(x.st, v)]
        if v[0] == "sym" and self.I.p.types[v[2]]["k"] in ("float", "param"):
            return [(x.st, v)]
        return None

    def m_cloned(self, x):
        v = x.args[0]
        if v[0] == "adt" and v[3]:
            return [(x.st, ("adt", x.dty, v[2], (self.deref(x.st, v[3][0]),)))]
        if v[0] == "adt":
            return [(x.st, ("adt", x.dty, v[2], ()))]
        if v[0] == "obj" and v[1] == "it":
            return [(x.st, ("obj", "it", v[2] + ("copied",)) + v[3:])]
        return None
    m_copied = m_cloned

    def m_identity(self, x): return [(x.st, x.args[0])]

    # ------------------------------------------------------------ memory
    def p_mem_replace(self, x):
        r = self.innermost_one(x.st, x.args[0])
        if r is None: return None
        old = self.I.read(x.st, r[1], r[2])
        self.I.write(x.st, r[1], r[2], x.args[1])
        return [(x.st, old)]

    def innermost_one(self, st, v):
        if v[0] == "ref":
            return v
        if v[0] == "sym" and self.I.p.types[v[2]]["k"] in ("ref", "ptr"):
            return ("ref", ("P", v[1] + ("*",), self.I.p.types[v[2]]["e"]), ())
        return None

    def p_mem_swap(self, x):
        a, b = self.innermost_one(x.st, x.args[0]), self.innermost_one(x.st, x.args[1])
        if a is None or b is None: return None
        va, vb = self.I.read(x.st, a[1], a[2]), self.I.read(x.st, b[1], b[2])
        self.I.write(x.st, a[1], a[2], vb); self.I.write(x.st, b[1], b[2], va)
        return [(x.st, ("tup", ()))]

    def p_mem_take(self, x):
        r = self.innermost_one(x.st, x.args[0])
        if r is None: return None
        old = self.I.read(x.st, r[1], r[2])
        d = self.default(x.dty)
        if d is None:
            return None
        self.I.write(x.st, r[1], r[2], d)
        return [(x.st, old)]

    def p_mem_drop(self, x): return [(x.st, ("tup", ()))]
    def p_mem_forget(self, x): return [(x.st, ("tup", ()))]

    def default(self, ti):
        t = self.I.p.types[ti]
        if t["k"] == "bool": return ("b", False)
        if t["k"] in ("uint", "int"): return C(0)
        if self.I.is_bytes_ty(ti) or t["k"] == "ref" and self.I.is_bytes_ty(t["e"]): return ("bytes", ())
        if self.I.is_list_ty(ti) or t["k"] == "ref" and self.I.is_list_ty(t["e"]): return ("list", ())
        if t["k"] == "adt":
            if t["path"] == "std::option::Option": return self.none(ti)
            if t["path"] == "slab::Slab": return ("slab", ("new",), t["args"][0])
            if t["path"] in ("std::collections::HashMap", "std::collections::BTreeMap"): return ("smap", ("new",), t["args"][1])
        return None

    def m_default(self, x):
        if x.dty is None: return None
        if "Xxh3" in x.path:
            return [(x.st, ("obj", "hasher", ("bytes", ())))]
        d = self.default(x.dty)
        return [(x.st, d)] if d is not None else None

    def m_with_capacity(self, x):
        d = self.default(x.dty)
        return [(x.st, d)] if d is not None else None

    def m_new(self, x):
        if x.n in ("Vec::new", "String::new", "HashMap::new", "BTreeMap::new", "Slab::new", "BString::new"):
            d = self.default(x.dty)
            return [(x.st, d)] if d is not None else None
        if x.n in ("Buffer::new",):
            return [(x.st, ("obj", "numbuf"))]
        if x.n == "Box::new":
            return None
        if x.n == "Arguments::new":
            return self.fmt_arguments(x)
        return None

    # vec![..]: a box is made, filled, and turned into a vector
    def m_new_uninit(self, x):
        cell = ("T", fresh("z"), "box")
        x.st.mem[cell] = ("top", "uninit")
        return [(x.st, ("ref", cell, ()))]

    def m_box_assume_init_into_vec_unsafe(self, x):
        v = self.deref(x.st, x.args[0])
        if v[0] == "arr":
            return [(x.st, self.arr_bytes(v) if self.I.is_bytes_ty(x.dty) else ("list", tuple(("el", e) for e in v[1])))]
        return None

    # ------------------------------------------------------------ hashing
    def m_hash(self, x):
        v = self.as_text(x.st, x.args[0])
        h = self.deref(x.st, x.args[1])
        if v is None or h[0] != "obj" or h[1] != "hasher":
            return None
        self.put(x.st, x.args[1], ("obj", "hasher", h[2] + (v,) if h[2] and h[2][0] == "many" else (("many", h[2], v) if h[2] != ("bytes", ()) else v)))
        return [(x.st, ("tup", ()))]
    m_hash_slice = m_hash

    def m_write(self, x):
        v = self.deref(x.st, x.args[0])
        if v[0] == "obj" and v[1] == "hasher":
            y = Call(self, x.st, x.cal, [x.args[1], x.args[0]], x.atys, x.dty, x.caller, x.line, x.n, x.m, x.path)
            return self.m_hash(y)
        return None
    m_update = m_write

    def m_finish_ext(self, x):
        h = self.deref(x.st, x.args[0])
        return [(x.st, ("obj", "h128", h[2]))] if h[0] == "obj" and h[1] == "hasher" else None
    m_finish_128 = m_finish_ext

    def p_Xxh3Hash128_oneshot(self, x):
        v = self.as_text(x.st, x.args[0])
        return [(x.st, ("obj", "h128", v))] if v is not None else None
    p_Hasher_oneshot = p_Xxh3Hash128_oneshot

    def m_to_le_bytes(self, x):
        v = x.args[0]
        if v[0] == "obj" and v[1] == "h128":
            return [(x.st, ("hashb", v[2]))]
        return None
    m_to_be_bytes = m_to_le_bytes
    m_to_ne_bytes = m_to_le_bytes

    def m_eq(self, x):
        a, b = self.deref(x.st, x.args[0]), self.deref(x.st, x.args[1])
        return self._eq(x, a, b)

    def _eq(self, x, a, b):
        if a[0] in ("hash", "hashb") and b[0] in ("hash", "hashb"):
            return [(s, ("b", r)) for s, r in self.text_eq(x.st, a[1], b[1])]
        if a[0] == "b": a = C(int(a[1]))
        if b[0] == "b": b = C(int(b[1]))
        if is_int(a) and is_int(b):
            return [(s, ("b", r)) for s, r in self.I.compare(x.st, "Eq", a, b)]
        if a[0] == "arr" and b[0] == "arr" and len(a[1]) == len(b[1]) <= 8 and all(is_int(v) for v in a[1] + b[1]):
            out, todo = [], [x.st]
            for u, v in zip(a[1], b[1]):
                nxt = []
                for st in todo:
                    for s, r in self.I.compare(st, "Eq", u, v):
                        if r:
                            nxt.append(s)
                        else:
                            out.append((s, ("b", False)))
                todo = nxt
            return out + [(s, ("b", True)) for s in todo]
        ta, tb = self.as_text(x.st, a), self.as_text(x.st, b)
        if ta is not None and tb is not None:
            return [(s, ("b", r)) for s, r in self.text_eq(x.st, ta, tb)]
        return None

    def m_ne(self, x):
        r = self.m_eq(x)
        return None if r is None else [(s, ("b", not v[1])) for s, v in r]

    def m_raw_eq(self, x): return self.m_eq(x)
    def m_spec_eq(self, x): return self.m_eq(x)

    def m_cmp(self, x):
        a, b = self.deref(x.st, x.args[0]), self.deref(x.st, x.args[1])
        if is_int(a) and is_int(b):
            out = []
            for s, lt in self.I.compare(x.st, "Lt", a, b):
                if lt: out.append((s, self._ordv(x.dty, -1)))
                else:
                    for s2, e in self.I.compare(s, "Eq", a, b):
                        out.append((s2, self._ordv(x.dty, 0 if e else 1)))
            return out
        return None
    def _ordv(self, dty, n):
        t = self.I.p.types[dty]
        return ("adt", dty, n + 1, ()) if t["k"] == "adt" and "v" in t else ("ord", n)

    def m_lt(self, x): return self._rel(x, "Lt")
    def m_le(self, x): return self._rel(x, "Le")
    def m_gt(self, x): return self._rel(x, "Gt")
    def m_ge(self, x): return self._rel(x, "Ge")
    def _rel(self, x, op):
        a, b = self.deref(x.st, x.args[0]), self.deref(x.st, x.args[1])
        if is_int(a) and is_int(b):
            return [(s, ("b", r)) for s, r in self.I.compare(x.st, op, a, b)]
        return None

    def m_eq_ignore_ascii_case(self, x):
        a, b = self.as_text(x.st, x.args[0]), self.as_text(x.st, x.args[1])
        if a is None or b is None: return None
        if all(p[0] == "lit" for p in a[1]): a, b = b, a
        if not all(p[0] == "lit" for p in b[1]): return self.fork_bool(x)
        lit = b"".join(p[1] for p in b[1])
        if all(p[0] == "lit" for p in a[1]):
            return [(x.st, ("b", b"".join(p[1] for p in a[1]).lower() == lit.lower()))]
        key = ("teqi", a, ("bytes", (("lit", lit.lower()),)))
        k = x.st.F.eqs.get(key)
        if k is not None:
            return [(x.st, ("b", k))]
        out = []
        if len(a[1]) == 1 and a[1][0][0] == "sub":
            p = a[1][0]
            s = x.st.copy()
            ok = s.F.assume_eq(sub(p[3], p[2]), C(len(lit)))
            if ok:
                for i, ch in enumerate(lit):
                    v = s.F.byte_at(p[1], addc(p[2], i))
                    both = rs(*{bytes([ch]).lower()[0], bytes([ch]).upper()[0]})
                    m = rs_inter(s.F.get_mask(v), both) if v is not None else ()
                    if not m: ok = False; break
                    if mono(v) and mono(v) in s.F.mask: s.F.mask[mono(v)] = rs_shift(m, -v[1])
            if ok:
                s.F.eqs[key] = True
                out.append((s, ("b", True)))
            s = x.st.copy()
            if ok: s.F.eqs[key] = False
            out.append((s, ("b", False)))
            return out
        return self.fork_bool(x)

    def fork_bool(self, x):
        return [(x.st.copy(), ("b", True)), (x.st.copy(), ("b", False))]

    # ------------------------------------------------------------ texts and lists: reading
    def _val(self, x, i=0):
        v = self.deref(x.st, x.args[i])
        if v[0] in ("bytes", "list", "arr"):
            return v
        t = self.as_text(x.st, v)
        return t if t is not None else v

    def m_len(self, x):
        v = self._val(x)
        if v[0] == "slab" or v[0] == "smap":
            n = self.I.newint(x.st); return [(x.st, n)]
        if v[0] == "obj" and v[1] == "it":
            return [(x.st, sub(v[5], v[4]))]
        if v[0] == "adt":
            return None
        n = self.len_of(x.st, v)
        return [(x.st, n)] if n is not None else None

    def m_is_empty(self, x):
        v = self._val(x)
        if v[0] == "obj" and v[1] == "it":
            n = sub(v[5], v[4])
        else:
            n = self.len_of(x.st, v)
        if n is None: return None
        return [(s, ("b", e)) for s, e in self.I.compare(x.st, "Eq", n, C(0))]

    def item(self, st, v, k):
        """Reference to element k (for lists: the element itself behind a reference)."""
        if v[0] == "bytes":
            return ("cref", self.byte_at(st, v, k))
        if v[0] == "arr":
            if is_const(k): return ("cref", v[1][k[1]])
            return ("cref", self.I._get(st, v, (("x", k),))[1])
        e = self.list_at(st, v, k)
        if e is None:
            self.I.note(st, "element of a list")
            return ("cref", ("top", "elem"))
        return ("cref", e)

    def _range(self, st, r):
        """(lo, hi, inclusive) of a range value."""
        if r[0] == "adt":
            pa = self.I.p.types[r[1]]["path"].split("::")[-1]
            r = r[:3] + (tuple(self.I.expand(st, e) for e in r[3]),)
            if pa == "Range": return r[3][0], r[3][1]
            if pa == "RangeFrom": return r[3][0], None
            if pa == "RangeTo": return C(0), r[3][0]
            if pa == "RangeInclusive": return r[3][0], addc(r[3][1], 1)
            if pa == "RangeToInclusive": return C(0), addc(r[3][0], 1)
            if pa == "RangeFull": return C(0), None
        if r[0] == "obj" and r[1] == "zst" and str(r[2]).endswith("RangeFull"):
            return C(0), None
        return None

    def m_get(self, x):
        v = self.deref(x.st, x.args[0])
        if v[0] == "slab": return self.slab_get(x)
        if v[0] == "smap": return self.smap_get(x)
        if v[0] == "adt" and x.n.startswith("NonZero"): return [(x.st, v[3][0])]
        if x.n.startswith(("Range", "usize")) and len(x.args) == 2:
            # SliceIndex::get(index, slice)
            y = Call(self, x.st, x.cal, [x.args[1], x.args[0]], x.atys, x.dty, x.caller, x.line, "", x.m, x.path)
            return self.m_get(y)
        v = self._val(x)
        if v[0] not in ("bytes", "list", "arr"): return None
        n = self.len_of(x.st, v)
        i = x.args[1]
        if i[0] not in ("i", "adt", "obj"): return None
        out = []
        if is_int(i):
            for s, lt in self.I.compare(x.st, "Lt", i, n):
                out.append((s, self.some(x.dty, self.item(s, v, i)) if lt else self.none(x.dty)))
            return out
        r = self._range(x.st, i)
        if r is None: return None
        lo, hi = r
        hi = n if hi is None else hi
        if not is_int(lo) or not is_int(hi):
            return None
        for s, a in self.I.compare(x.st, "Le", lo, hi):
            if not a:
                out.append((s, self.none(x.dty))); continue
            for s2, b in self.I.compare(s, "Le", hi, n):
                out.append((s2, self.some(x.dty, self.slice(s2, v, lo, hi)) if b else self.none(x.dty)))
        return out

    def m_get_mut(self, x):
        v = self.deref(x.st, x.args[0])
        if v[0] == "slab": return self.slab_get(x)
        if v[0] == "list" and is_int(x.args[1]):
            n = self.len_of(x.st, v)
            r = self.innermost(x.st, x.args[0])
            out = []
            for s, lt in self.I.compare(x.st, "Lt", x.args[1], n):
                out.append((s, self.some(x.dty, ("ref", r[1], r[2] + (("x", x.args[1]),))) if lt else self.none(x.dty)))
            return out
        return None

    def m_index(self, x):
        v = self._val(x)
        if v[0] == "smap": return None
        if v[0] not in ("bytes", "list", "arr"): return None
        n = self.len_of(x.st, v)
        i = x.args[1]
        out = []
        if is_int(i):
            for s, lt in self.I.compare(x.st, "Lt", i, n):
                if lt: out.append((s, self.item(s, v, i)))
                else: self.I.panic(s, x.caller, "index out of bounds", x.line)
            return out
        r = self._range(x.st, i)
        if r is None: return None
        lo, hi = r
        hi = n if hi is None else hi
        for s, a in self.I.compare(x.st, "Le", lo, hi):
            if not a:
                self.I.panic(s, x.caller, "slice index starts after its end", x.line); continue
            for s2, b in self.I.compare(s, "Le", hi, n):
                if b:
                    out.append((s2, self.slice(s2, v, lo, hi)))
                else:
                    self.I.panic(s2, x.caller, "slice index out of range", x.line)
        return out

    def _end(self, x, last):
        v = self._val(x)
        if v[0] not in ("bytes", "list", "arr"): return None
        n = self.len_of(x.st, v)
        out = []
        for s, e in self.I.compare(x.st, "Eq", n, C(0)):
            if e: out.append((s, self.none(x.dty)))
            else: out.append((s, self.some(x.dty, self.item(s, v, addc(n, -1) if last else C(0)))))
        return out
    def m_first(self, x): return self._end(x, False)
    def m_last(self, x):
        v = self.deref(x.st, x.args[0])
        if v[0] in ("obj", "adt"): return None
        return self._end(x, True)

    def m_split_first(self, x): return self._split_end(x, False)
    def m_split_last(self, x): return self._split_end(x, True)
    def _split_end(self, x, last):
        v = self._val(x)
        n = self.len_of(x.st, v)
        out = []
        for s, e in self.I.compare(x.st, "Eq", n, C(0)):
            if e: out.append((s, self.none(x.dty)))
            elif last: out.append((s, self.some(x.dty, ("tup", (self.item(s, v, addc(n, -1)), self.slice(s, v, C(0), addc(n, -1)))))))
            else: out.append((s, self.some(x.dty, ("tup", (self.item(s, v, C(0)), self.slice(s, v, C(1), n))))))
        return out

    def m_split_at(self, x):
        v = self._val(x)
        n = self.len_of(x.st, v)
        out = []
        for s, b in self.I.compare(x.st, "Le", x.args[1], n):
            if b: out.append((s, ("tup", (self.slice(s, v, C(0), x.args[1]), self.slice(s, v, x.args[1], n)))))
            else: self.I.panic(s, x.caller, "split index out of range", x.line)
        return out

    def m_starts_with(self, x): return self._affix(x, False)
    def m_ends_with(self, x): return self._affix(x, True)
    def _affix(self, x, end):
        v = self._val(x)
        a = x.args[1]
        if is_int(a):      # a char pattern
            n = self.len_of(x.st, v)
            out = []
            for s, e in self.I.compare(x.st, "Eq", n, C(0)):
                if e: out.append((s, ("b", False))); continue
                b = self.byte_at(s, v, addc(n, -1) if end else C(0))
                out.extend((s2, ("b", r)) for s2, r in self.I.compare(s, "Eq", b, a))
            return out
        w = self.as_text(x.st, a)
        if w is None or v[0] != "bytes": return self.fork_bool(x)
        n, k = self.len_of(x.st, v), self.len_of(x.st, w)
        out = []
        for s, le in self.I.compare(x.st, "Le", k, n):
            if not le: out.append((s, ("b", False))); continue
            part = self.slice(s, v, sub(n, k), n) if end else self.slice(s, v, C(0), k)
            out.extend((s2, ("b", r)) for s2, r in self.text_eq(s, part, w))
        return out

    def m_strip_prefix(self, x): return self._strip(x, False)
    def m_strip_suffix(self, x): return self._strip(x, True)
    def _strip(self, x, end):
        v = self._val(x)
        w = self.as_text(x.st, x.args[1])
        y = Call(self, x.st, x.cal, [v, x.args[1]], x.atys, x.dty, x.caller, x.line, x.n, x.m, x.path)
        out = []
        for s, b in self._affix(y, end):
            if not b[1]: out.append((s, self.none(x.dty))); continue
            n = self.len_of(s, v)
            k = C(1) if w is None else self.len_of(s, w)
            out.append((s, self.some(x.dty, self.slice(s, v, C(0), sub(n, k)) if end else self.slice(s, v, k, n))))
        return out

    def find_in(self, st, v, yes, last=False):
        """[(state, position or None)]: first (or last) position of a byte in the class."""
        n = self.len_of(st, v)
        out = []
        if len(v[1]) == 0:
            return [(st, None)]
        if not (len(v[1]) == 1 and v[1][0][0] == "sub"):
            if all(p[0] == "lit" for p in v[1]):
                b = b"".join(p[1] for p in v[1])
                h = [i for i, c in enumerate(b) if rs_has(yes, c)]
                return [(st, C(h[-1 if last else 0]) if h else None)]
            s = st.copy()
            k = self.I.newint(s)
            if s.F.assume_le(addc(k, 1), n):
                out.append((s, k))
            out.append((st.copy(), None))
            return out
        p = v[1][0]
        base, lo, hi = p[1], p[2], p[3]
        no = rs_minus(FULL8, yes)
        # not found
        s = st.copy()
        if s.F.add_seg(base, lo, hi, no):
            out.append((s, None))
        s = st.copy()
        cov = s.F.cover(base, lo, hi)
        if cov is not None and not rs_inter(cov, yes):
            return out
        P = self.memo(s, ("find", v, yes, last))      # absolute position in the base
        k = sub(P, lo)
        a = lo
        for _ in range(3):
            # the first bytes are known not to be it
            b = s.F.find_byte(base, a)
            m = s.F.get_mask(b) if b is not None else s.F.seg_mask_at(base, a)
            if m is None or rs_inter(m, yes):
                break
            a = addc(a, 1)
        if s.F.assume_le(addc(P, 1), hi) and s.F.assume_le(a, P) and s.F.assume_le(addc(lo, 1), hi):
            b = s.F.byte_at(base, P)
            m = rs_inter(s.F.get_mask(b), yes) if b is not None else ()
            if m:
                if mono(b) and mono(b) in s.F.mask:
                    s.F.mask[mono(b)] = rs_shift(m, -b[1])
                a, e = (addc(P, 1), hi) if last else (lo, P)
                if s.F.add_seg(base, a, e, no):
                    out.append((s, k))
        return out

    def memo(self, st, key):
        """The value of a pure function of a text: the same symbol for the same text when nothing in it can change meaning."""
        if all(s in dom.RIGID for s in syms_of(key, set())):
            s = self.I.names.get(key)
            if s is None:
                s = fresh("z")
                dom.RIGID.add(s)
                self.I.names[key] = s
            st.F.row(s)
            return S(s)
        return self.I.newint(st)

    def _memfind(self, x, nbytes, last):
        yes = ()
        for b in x.args[:nbytes]:
            if not is_const(b):
                return self._opaque_opt(x)
            yes = rs_union(yes, ((b[1], b[1]),))
        v = self.as_text(x.st, x.args[nbytes])
        if v is None: return None
        return [(s, self.none(x.dty) if k is None else self.some(x.dty, k)) for s, k in self.find_in(x.st, v, yes, last)]

    def _opaque_opt(self, x):
        s = x.st.copy()
        k = self.I.newint(s)
        return [(s, self.some(x.dty, k)), (x.st.copy(), self.none(x.dty))]

    def m_memchr(self, x): return self._memfind(x, 1, False)
    def m_memchr2(self, x): return self._memfind(x, 2, False)
    def m_memchr3(self, x): return self._memfind(x, 3, False)
    def m_memrchr(self, x): return self._memfind(x, 1, True)
    def m_memrchr2(self, x): return self._memfind(x, 2, True)

    def _pattern(self, st, a):
        """Byte class of a needle, when it is a single byte (bstr) or ASCII char (str)."""
        a = self.deref(st, a)
        if a[0] == "arr" and len(a[1]) == 1: a = a[1][0]
        if a[0] == "bytes" and len(a[1]) == 1 and a[1][0][0] == "lit" and len(a[1][0][1]) == 1:
            a = C(a[1][0][1][0])
        if is_const(a) and a[1] < 128:
            return ((a[1], a[1]),)
        if a[0] == "arr" and False:
            return None
        return None

    def m_find_byte(self, x): return self._findp(x, False)
    def m_rfind_byte(self, x): return self._findp(x, True)
    def m_rfind(self, x):
        v = self.deref(x.st, x.args[0])
        return self._findp(x, True) if v[0] == "bytes" else None
    # ------------------------------------------------------------ searching iterators
    def _clo_item(self, st, fv, n):
        """Type of parameter n of a function value."""
        v = self.deref(st, fv)
        if v[0] == "clo" and v[1] in self.I.p.fns:
            f = self.I.p.fns[v[1]]
            return f["locals"][n + 2] if n + 2 < len(f["locals"]) else None
        if v[0] == "fn":
            k = dict(v[1]).get("key")
            if k in self.I.p.fns:
                return self.I.p.fns[k]["locals"][n + 1]
        return None

    def _loop(self, x, how):
        """Run a searching method of a list or text iterator as the loop it stands for."""
        p = self.I.p
        it = self.deref(x.st, x.args[0])
        byval = how in ("for_each", "fold")
        if it[0] != "obj" or it[1] != "it" or "chars" in it[2]:
            return None
        fv = x.args[2 if how == "fold" else 1]
        if how in ("all", "any", "position") and it[3][0] == "bytes" and is_const(it[4]) and it[4][1] == 0 and st_eq(x.st, it[5], self.len_of(x.st, it[3])):
            yes = self.byte_class(x.st, fv, "val" in it[2] or "copied" in it[2])
            if yes is not None:
                want = rs_minus(FULL8, yes) if how == "all" else yes
                out = []
                for s, k in self.find_in(x.st, it[3], want):
                    r = self.innermost(s, x.args[0])
                    if r is not None:
                        self.I.write(s, r[1], r[2], it[:4] + (it[5] if k is None else addc(k, 1), it[5]))
                    out.append((s, ("b", (k is None) == (how == "all")) if how != "position" else self.none(x.dty) if k is None else self.some(x.dty, k)))
                return out
        ity = self._clo_item(x.st, fv, 1 if how == "fold" else 0)
        if ity is None:
            return None
        if how == "find":
            ity = p.types[ity].get("e")
            if ity is None: return None
        key = p.search_loop(how, ity, x.dty)
        a = x.args[0]
        if byval:
            cell = ("T", fresh("z"))
            x.st.mem[cell] = it
            a = ("ref", cell, ())
        rest = list(x.args[1:])
        if rest[-1][0] == "clo":
            cell = ("T", fresh("z"))
            x.st.mem[cell] = rest[-1]
            rest[-1] = ("ref", cell, ())
        return self.I.run_fn(key, [a] + rest, x.st)

    def byte_class(self, st, fv, byval):
        """The bytes a predicate accepts, when it depends on nothing else and changes nothing."""
        b = fresh("z")
        s = st.copy()
        s.F.mask[b] = FULL8
        s.F.row(b)
        s.mem[("L", self.I.depth, -1)] = S(b)
        before = dict(s.mem)
        bool_ty = self.I.p.find_ty("bool")
        yes, no = (), ()
        for t, v in self.I.call_value(s, fv, [S(b) if byval else ("cref", S(b))], bool_ty):
            if v[0] != "b" or v[1] not in (True, False) or t.taint != st.taint or t.ev != st.ev:
                return None
            if any(c in t.mem and t.mem[c] != w for c, w in before.items() if c[0] != "T"):
                return None
            m = t.F.get_mask(S(b))
            if v[1]: yes = rs_union(yes, m)
            else: no = rs_union(no, m)
        return yes if not rs_inter(yes, no) else None

    def m_all(self, x): return self._loop(x, "all")
    def m_any(self, x): return self._loop(x, "any")
    def m_position(self, x): return self._loop(x, "position")
    def m_find_map(self, x): return self._loop(x, "find_map")
    def m_for_each(self, x): return self._loop(x, "for_each")
    def m_fold(self, x): return self._loop(x, "fold")

    def m_find(self, x):
        r = self._loop(x, "find")
        if r is not None:
            return r
        v = self.deref(x.st, x.args[0])
        return self._findp(x, False) if v[0] == "bytes" else None
    def _findp(self, x, last):
        v = self.as_text(x.st, x.args[0])
        y = self._pattern(x.st, x.args[1])
        if v is None: return None
        if y is None:
            n = self.len_of(x.st, v)
            s = x.st.copy(); k = self.I.newint(s)
            out = [(x.st.copy(), self.none(x.dty))]
            if s.F.assume_le(addc(k, 1), n): out.append((s, self.some(x.dty, k)))
            return out
        return [(s, self.none(x.dty) if k is None else self.some(x.dty, k)) for s, k in self.find_in(x.st, v, y, last)]

    def m_contains(self, x):
        v = self._val(x)
        if v[0] == "bytes":
            a = self.deref(x.st, x.args[1])
            y = self._pattern(x.st, a)
            if y is not None:
                return [(s, ("b", k is not None)) for s, k in self.find_in(x.st, v, y)]
            if is_int(a) and all(p[0] == "lit" for p in v[1]):
                return self._cls(Call(self, x.st, x.cal, [a], x.atys, x.dty, x.caller, x.line, x.n, x.m, x.path), rs(*set(b"".join(p[1] for p in v[1]))))
            return self.fork_bool(x)
        if v[0] == "arr" and all(is_const(e) for e in v[1]):
            a = self.deref(x.st, x.args[1])
            if is_int(a):
                return self._cls(Call(self, x.st, x.cal, [a], x.atys, x.dty, x.caller, x.line, x.n, x.m, x.path), rs(*[e[1] for e in v[1]]))
        if v[0] == "adt":
            r = self._range(x.st, v)
            a = self.deref(x.st, x.args[1])
            if r is not None and is_int(a) and r[1] is not None:
                out = []
                for s, p in self.I.compare(x.st, "Le", r[0], a):
                    if not p: out.append((s, ("b", False))); continue
                    for s2, q in self.I.compare(s, "Lt", a, r[1]):
                        out.append((s2, ("b", q)))
                return out
        return None
    m_contains_byte = m_contains

    def m_trim(self, x): return self._trim(x, True, True)
    def m_trim_start(self, x): return self._trim(x, True, False)
    def m_trim_end(self, x): return self._trim(x, False, True)
    def _trim(self, x, a, b):
        """bstr trim: the result is a sub-range; what is cut off is whitespace."""
        v = self.as_text(x.st, x.args[0])
        if v is None: return None
        if len(v[1]) == 0: return [(x.st, v)]
        if len(v[1]) == 1 and v[1][0][0] == "sub":
            _, base, lo, hi = v[1][0]
            st = x.st
            i = self.memo(st, ("trim0", v)) if a else C(0)
            j = self.memo(st, ("trim1", v)) if b else C(0)
            lo2, hi2 = add(lo, i), sub(hi, j)
            if b:
                h = self.I.newint(st) if not is_const(j) else hi
                st.F.assume_le(h, hi)
                hi2 = h
            if a:
                l = self.I.newint(st)
                st.F.assume_le(lo, l)
                lo2 = l
            st.F.assume_le(lo2, hi2)
            st.F.assume_le(lo2, hi); st.F.assume_le(lo, hi2)
            return [(st, ("bytes", (("sub", base, lo2, hi2),)))]
        return [(x.st, ("bytes", (("any", "trim"),)))]

    def m_to_str(self, x):
        v = self.as_text(x.st, x.args[0])
        if v is None: return None
        key = ("utf8", v)
        known = x.st.F.eqs.get(key)
        out = []
        if known is None or known:
            s = x.st.copy(); s.F.eqs[key] = True
            out.append((s, self.ok(x.dty, v)))
        if (known is None or not known) and not all(p[0] == "lit" for p in v[1]):
            s = x.st.copy(); s.F.eqs[key] = False
            out.append((s, self.err(x.dty, ("top", "Utf8Error"))))
        return out
    m_from_utf8 = m_to_str

    def m_to_str_lossy(self, x):
        v = self.as_text(x.st, x.args[0])
        return [(x.st, ("bytes", (("lossy", v),)))] if v is not None else None
    m_from_utf8_lossy = m_to_str_lossy
    m_to_string_lossy = m_to_str_lossy

    # ------------------------------------------------------------ texts and lists: writing
    def _wlist(self, x, f):
        r = self.innermost(x.st, x.args[0])
        v = self.deref(x.st, x.args[0])
        if r is None: return None
        n = f(v)
        if n is None: return None
        self.I.write(x.st, r[1], r[2], n)
        return [(x.st, ("tup", ()))]

    def m_push(self, x):
        v = self.deref(x.st, x.args[0])
        if v[0] == "bytes":
            a = x.args[1]
            if x.n.startswith("String"):
                t = self.char_text(x.st, a)
            elif is_int(a):
                t = ("bytes", (("lit", bytes([a[1]])),)) if is_const(a) else ("bytes", (("byte", a),))
            else:
                t = ("bytes", (("any", "push"),))
            return self._wlist(x, lambda v: self.cat(v, t))
        if v[0] == "list":
            if self.I.on_push is not None: self.I.on_push(x.st, x)
            return self._wlist(x, lambda v: ("list", v[1] + (("el", x.args[1]),)))
        return None
    m_push_byte = m_push

    def char_text(self, st, c):
        if is_const(c):
            return ("bytes", (("lit", chr(c[1]).encode("utf-8", "surrogatepass")),))
        if is_int(c):
            m = st.F.get_mask(c)
            if rs_subset(m, ASCII):
                return ("bytes", (("byte", c),))
            o = st.F.misc.get(("chr", c))
            if o is not None:
                return o
            return ("bytes", (("utf8", c),))
        return ("bytes", (("any", "char"),))

    def m_extend_from_slice(self, x):
        v = self.deref(x.st, x.args[0])
        if v[0] == "bytes":
            t = self.as_text(x.st, x.args[1])
            return self._wlist(x, lambda v: self.cat(v, t if t is not None else ("bytes", (("any", "ext"),))))
        if v[0] == "list":
            w = self.deref(x.st, x.args[1])
            if w[0] == "list":
                return self._wlist(x, lambda v: self.lnorm(x.st, ("list", v[1] + w[1])))
            if w[0] == "arr":
                return self._wlist(x, lambda v: ("list", v[1] + tuple(("el", e) for e in w[1])))
        return None
    m_push_str = m_extend_from_slice

    def m_extend(self, x):
        v = self.deref(x.st, x.args[0])
        w = x.args[1]
        d = self.deref(x.st, w)
        if v[0] == "bytes":
            if d[0] in ("bytes", "arr"):
                return self.m_extend_from_slice(x)
            if d[0] in ("adt", "sym") and self.I.p.types[d[1] if d[0] == "adt" else d[2]].get("path") == "std::option::Option":
                out = []
                for s, o in self.I.fork_variant(x.st, d):
                    if o[3]:
                        e = self.deref(s, o[3][0])
                        t = ("bytes", (("byte", e),)) if is_int(e) else ("bytes", (("any", "ext"),))
                        r = self.innermost(s, x.args[0])
                        self.I.write(s, r[1], r[2], self.cat(v, t))
                    out.append((s, ("tup", ())))
                return out
            # Take<Repeat<u8>>
            if d[0] == "adt" and self.I.p.types[d[1]]["path"].endswith("::Take"):
                f = {q[0]: z for q, z in zip(self.I.p.types[d[1]]["v"][0]["f"], d[3])}
                it, n = f.get("iter"), f.get("n")
                if it is not None and it[0] == "adt" and self.I.p.types[it[1]]["path"].endswith("::Repeat") and is_int(it[3][0]):
                    return self._wlist(x, lambda v: self.cat(v, ("bytes", (("rep", it[3][0], n),))))
            if d[0] == "obj" and d[1] == "it" and d[3][0] == "bytes":
                t = self.slice(x.st, d[3], d[4], d[5])
                return self._wlist(x, lambda v: self.cat(v, t))
            self.I.note(x.st, "extend with an unknown iterator")
            return self._wlist(x, lambda v: self.cat(v, ("bytes", (("any", "ext"),))))
        if v[0] == "list":
            if d[0] == "list":
                return self._wlist(x, lambda v: ("list", v[1] + d[1]))
            if d[0] == "obj" and d[1] == "it" and d[3][0] == "list":
                t = self.slice(x.st, d[3], d[4], d[5])
                if t[0] == "list":
                    return self._wlist(x, lambda v: ("list", v[1] + t[1]))
        return None

    def m_resize(self, x):
        v = self.deref(x.st, x.args[0])
        if v[0] != "bytes": return None
        n = self.len_of(x.st, v)
        k, b = x.args[1], x.args[2]
        if not (is_int(k) and is_int(b)): return None
        out = []
        for s, le in self.I.compare(x.st, "Le", n, k):
            r = self.innermost(s, x.args[0])
            if le:
                c = sub(k, n)
                w = self.cat(v, ("bytes", (("rep", b, c),))) if c != C(0) else v
            else:
                w = self.slice(s, v, C(0), k)
            self.I.write(s, r[1], r[2], w)
            out.append((s, ("tup", ())))
        return out

    def m_clear(self, x):
        v = self.deref(x.st, x.args[0])
        if v[0] in ("bytes", "list"):
            return self._wlist(x, lambda v: (v[0], ()))
        return None

    def m_truncate(self, x):
        v = self.deref(x.st, x.args[0])
        if v[0] not in ("bytes", "list"): return None
        n = self.len_of(x.st, v)
        out = []
        for s, le in self.I.compare(x.st, "Le", n, x.args[1]):
            if not le:
                r = self.innermost(s, x.args[0])
                self.I.write(s, r[1], r[2], self.slice(s, v, C(0), x.args[1]))
            out.append((s, ("tup", ())))
        return out

    def m_reserve(self, x): return [(x.st, ("tup", ()))]
    m_shrink_to_fit = m_reserve
    m_reserve_exact = m_reserve

    def m_remove(self, x):
        v = self.deref(x.st, x.args[0])
        if v[0] == "slab": return self.slab_remove(x, False)
        if v[0] not in ("list",): return None
        n = self.len_of(x.st, v)
        i = x.args[1]
        out = []
        for s, lt in self.I.compare(x.st, "Lt", i, n):
            if not lt:
                self.I.panic(s, x.caller, "removal index out of bounds", x.line); continue
            e = self.list_at(s, v, i)
            a, b = self.slice(s, v, C(0), i), self.slice(s, v, addc(i, 1), n)
            if e is None or a[0] != "list" or b[0] != "list":
                self.I.note(s, "list removal"); out.extend(self.I.havoc(s, x.args, x.atys, x.dty)); continue
            r = self.innermost(s, x.args[0])
            self.I.write(s, r[1], r[2], self.lnorm(s, ("list", a[1] + b[1])))
            out.append((s, e))
        return out

    def m_swap_remove(self, x):
        v = self.deref(x.st, x.args[0])
        if v[0] != "list": return None
        n = self.len_of(x.st, v)
        i = x.args[1]
        out = []
        for s, lt in self.I.compare(x.st, "Lt", i, n):
            if not lt:
                self.I.panic(s, x.caller, "removal index out of bounds", x.line); continue
            for s2, lastq in self.I.compare(s, "Eq", addc(i, 1), n):
                e = self.list_at(s2, v, i)
                r = self.innermost(s2, x.args[0])
                if lastq:
                    w = self.slice(s2, v, C(0), i)
                else:
                    l = self.list_at(s2, v, addc(n, -1))
                    a, b = self.slice(s2, v, C(0), i), self.slice(s2, v, addc(i, 1), addc(n, -1))
                    w = ("list", a[1] + (("el", l),) + b[1]) if a[0] == "list" == b[0] and l is not None else ("top", "list")
                self.I.write(s2, r[1], r[2], w)
                out.append((s2, e))
        return out

    def m_insert(self, x):
        v = self.deref(x.st, x.args[0])
        if v[0] == "slab": return self.slab_insert(x)
        if v[0] == "smap": return self.smap_insert(x)
        if v[0] == "obj" and v[1] == "vacant": return self.vacant_insert(x)
        if v[0] == "list":
            n = self.len_of(x.st, v)
            i = x.args[1]
            out = []
            for s, le in self.I.compare(x.st, "Le", i, n):
                if not le:
                    self.I.panic(s, x.caller, "insertion index out of bounds", x.line); continue
                a, b = self.slice(s, v, C(0), i), self.slice(s, v, i, n)
                r = self.innermost(s, x.args[0])
                if a[0] != "list" or b[0] != "list":
                    self.I.note(s, "list insertion"); self.I.write(s, r[1], r[2], ("top", "list"))
                else:
                    self.I.write(s, r[1], r[2], ("list", a[1] + (("el", x.args[2]),) + b[1]))
                out.append((s, ("tup", ())))
            return out
        return None

    def m_pop(self, x):
        v = self.deref(x.st, x.args[0])
        if v[0] not in ("list", "bytes"): return None
        n = self.len_of(x.st, v)
        out = []
        for s, e in self.I.compare(x.st, "Eq", n, C(0)):
            if e: out.append((s, self.none(x.dty))); continue
            it = self.deref(s, self.item(s, v, addc(n, -1)))
            r = self.innermost(s, x.args[0])
            self.I.write(s, r[1], r[2], self.slice(s, v, C(0), addc(n, -1)))
            out.append((s, self.some(x.dty, it)))
        return out

    def m_drain(self, x):
        v = self.deref(x.st, x.args[0])
        if v[0] not in ("list", "bytes"): return None
        r = self._range(x.st, x.args[1])
        if r is None: return None
        n = self.len_of(x.st, v)
        lo, hi = r[0], n if r[1] is None else r[1]
        out = []
        for s, a in self.I.compare(x.st, "Le", lo, hi):
            if not a: self.I.panic(s, x.caller, "drain range", x.line); continue
            for s2, b in self.I.compare(s, "Le", hi, n):
                if not b: self.I.panic(s2, x.caller, "drain range", x.line); continue
                taken = self.slice(s2, v, lo, hi)
                ra = self.innermost(s2, x.args[0])
                p, q = self.slice(s2, v, C(0), lo), self.slice(s2, v, hi, n)
                self.I.write(s2, ra[1], ra[2], self.lnorm(s2, ("list", p[1] + q[1])) if v[0] == "list" and p[0] == q[0] == "list" else ("list", ()) if p[0] == "list" else p)
                out.append((s2, self.mkiter(s2, taken, ("val",))))
        return out

    def m_append(self, x):
        v, w = self.deref(x.st, x.args[0]), self.deref(x.st, x.args[1])
        if v[0] != w[0] or v[0] not in ("list", "bytes"): return None
        self.put(x.st, x.args[0], ("list", v[1] + w[1]) if v[0] == "list" else self.cat(v, w))
        self.put(x.st, x.args[1], (v[0], ()))
        return [(x.st, ("tup", ()))]

    # ------------------------------------------------------------ iterators over lists and texts
    # ('obj', 'it', flags, source, i, j): flags: 'val' by value, 'chars', 'idx' (char_indices), 'str'
    def mkiter(self, st, v, flags):
        return ("obj", "it", flags, v, C(0), self.len_of(st, v))

    def m_iter(self, x):
        v = self._val(x)
        if v[0] in ("bytes", "list", "arr"):
            return [(x.st, self.mkiter(x.st, v, ()))]
        return None

    def m_into_iter(self, x):
        a = x.args[0]
        v = self.deref(x.st, a)
        if x.cal.get("kind") == "unresolved":
            if v[0] == "sym":
                return [(x.st, ("obj", "useriter", v[1], C(0), self.I.length(x.st, v[1] + ("items",))))]
            if v[0] == "obj": return [(x.st, a)]
            return None
        if v[0] in ("obj",):
            return [(x.st, a)]
        isref = a[0] in ("ref", "cref") or (x.atys and self.I.p.types[x.atys[0]]["k"] == "ref")
        if v[0] in ("bytes", "list", "arr"):
            return [(x.st, self.mkiter(x.st, v, () if isref else ("val",)))]
        return None

    def m_bytes(self, x):
        v = self.as_text(x.st, x.args[0])
        return [(x.st, self.mkiter(x.st, v, ("val",)))] if v is not None else None

    def m_chars(self, x):
        v = self.as_text(x.st, x.args[0])
        return [(x.st, self.mkiter(x.st, v, ("chars", "str" if x.n.startswith("str") else "bstr")))] if v is not None else None

    def m_char_indices(self, x):
        v = self.as_text(x.st, x.args[0])
        return [(x.st, self.mkiter(x.st, v, ("chars", "str" if x.n.startswith("str") else "bstr", "idx")))] if v is not None else None

    def opt_inner(self, dty):
        t = self.I.p.types[dty]
        return t["v"][self.I.vindex(dty, "Some")]["f"][0][1]

    def _itval(self, st, it, k):
        """Item at position k."""
        e = self.item(st, it[3], k)
        if "val" in it[2] or "copied" in it[2]:
            e = self.deref(st, e)
        return e

    def m_next(self, x):
        r = self.innermost(x.st, x.args[0])
        it = self.deref(x.st, x.args[0])
        if it[0] == "adt" and self.I.p.types[it[1]]["path"].split("::")[-1] == "Range" and is_int(it[3][0]) and is_int(it[3][1]):
            return self.range_next(x, r, it, False)
        if it[0] != "obj" or r is None:
            if it[0] == "sym" and x.cal.get("kind") == "unresolved":
                it = ("obj", "useriter", it[1], C(0), self.I.length(x.st, it[1] + ("items",)))
            else:
                return None
        if it[1] == "useriter":
            out = []
            i, j = it[3], it[4]
            for s, lt in self.I.compare(x.st, "Lt", i, j):
                if not lt: out.append((s, self.none(x.dty))); continue
                self.I.write(s, r[1], r[2], it[:3] + (addc(i, 1), j))
                out.append((s, self.some(x.dty, ("obj", "item", it[2], ("at", i)))))
            return out
        if it[1] != "it":
            return None
        if "chars" in it[2]:
            return self.next_char(x, r, it)
        _, _, fl, src, i, j = it
        out = []
        for s, lt in self.I.compare(x.st, "Lt", i, j):
            if not lt:
                out.append((s, self.none(x.dty))); continue
            e = self._itval(s, it, i)
            self.I.write(s, r[1], r[2], ("obj", "it", fl, src, addc(i, 1), j))
            out.append((s, self.some(x.dty, e)))
        return out
    m_spec_next = m_next
    p_nd_next = m_next
    def p_nd_call(self, x): return self.I.call_value(x.st, x.args[0], list(x.args[1:]), x.dty)

    def range_next(self, x, r, it, back):
        a, b = it[3]
        out = []
        for s, lt in self.I.compare(x.st, "Lt", a, b):
            if not lt:
                out.append((s, self.none(x.dty))); continue
            n = it[:3] + ((a, addc(b, -1)) if back else (addc(a, 1), b),)
            self.I.write(s, r[1], r[2], n)
            out.append((s, self.some(x.dty, addc(b, -1) if back else a)))
        return out

    def m_next_back(self, x):
        r = self.innermost(x.st, x.args[0])
        it = self.deref(x.st, x.args[0])
        if it[0] == "adt" and self.I.p.types[it[1]]["path"].split("::")[-1] == "Range" and is_int(it[3][0]) and is_int(it[3][1]):
            return self.range_next(x, r, it, True)
        if it[0] != "obj" or it[1] != "it" or r is None or "chars" in it[2]: return None
        _, _, fl, src, i, j = it
        out = []
        for s, lt in self.I.compare(x.st, "Lt", i, j):
            if not lt:
                out.append((s, self.none(x.dty))); continue
            e = self._itval(s, it, addc(j, -1))
            self.I.write(s, r[1], r[2], ("obj", "it", fl, src, i, addc(j, -1)))
            out.append((s, self.some(x.dty, e)))
        return out

    def _nth(self, x, back):
        r = self.innermost(x.st, x.args[0])
        it = self.deref(x.st, x.args[0])
        n = x.args[1]
        if it[0] != "obj" or it[1] != "it" or r is None or "chars" in it[2] or not is_int(n): return None
        _, _, fl, src, i, j = it
        out = []
        for s, lt in self.I.compare(x.st, "Lt", n, sub(j, i)):
            if not lt:
                self.I.write(s, r[1], r[2], ("obj", "it", fl, src, i, i) if back else ("obj", "it", fl, src, j, j))
                out.append((s, self.none(x.dty))); continue
            k = sub(addc(j, -1), n) if back else add(i, n)
            e = self._itval(s, it, k)
            self.I.write(s, r[1], r[2], ("obj", "it", fl, src, i, k) if back else ("obj", "it", fl, src, addc(k, 1), j))
            out.append((s, self.some(x.dty, e)))
        return out
    def m_nth(self, x): return self._nth(x, False)
    def m_nth_back(self, x): return self._nth(x, True)

    def m_size_hint(self, x):
        it = self.deref(x.st, x.args[0])
        if it[0] == "obj" and it[1] == "it" and "chars" not in it[2]:
            n = sub(it[5], it[4])
            t = self.I.p.types[x.dty]
            return [(x.st, ("tup", (n, self.some(t["f"][1], n))))]
        if it[0] == "obj" and it[1] == "useriter":
            n = self.I.newint(x.st)
            t = self.I.p.types[x.dty]
            return [(x.st, ("tup", (n, self.none(t["f"][1]))))]
        return None

    def m_count(self, x):
        it = x.args[0]
        if it[0] == "obj" and it[1] == "it":
            if "chars" not in it[2]:
                return [(x.st, sub(it[5], it[4]))]
            k = self.memo(x.st, ("count", it[2], it[3], it[4]))
            x.st.F.assume_le(k, sub(it[5], it[4]))
            x.st.F.assume_le(k, C(dom.LENMAX))
            return [(x.st, k)]
        return None

    def m_rev(self, x):
        return None

    def m_as_slice_iter(self, x):
        return None

    def next_char(self, x, r, it):
        _, _, fl, src, i, j = it
        idx = "idx" in fl
        out = []
        inner = self.opt_inner(x.dty)
        for s, lt in self.I.compare(x.st, "Lt", i, j):
            if not lt:
                out.append((s, self.none(x.dty))); continue
            b = self.byte_at(s, src, i)
            m = s.F.get_mask(b)
            for k, hi in ((rs_inter(m, ASCII), False), (rs_inter(m, HIGH), True)):
                if not k: continue
                s2 = s.copy()
                if mono(b) and mono(b) in s2.F.mask:
                    s2.F.mask[mono(b)] = rs_shift(k, -b[1])
                if not hi:
                    c, e = b, addc(i, 1)
                else:
                    c = self.I.newbyte(s2, NONASCII)
                    e = self.I.newint(s2)
                    s2.F.assume_le(addc(i, 1), e)
                    s2.F.assume_le(e, addc(i, 4))
                    s2.F.assume_le(e, j)
                    if len(src[1]) == 1 and src[1][0][0] == "sub":
                        p = src[1][0]
                        if not s2.F.add_seg(p[1], add(p[2], i), add(p[2], e), HIGH): continue
                        s2.F.misc[("chr", c)] = ("bytes", (("chr" if "bstr" in fl else "sub", p[1], add(p[2], i), add(p[2], e)),))
                self.I.write(s2, r[1], r[2], ("obj", "it", fl, src, e, j))
                if not idx: v = c
                elif "bstr" in fl: v = ("tup", (i, e, c))
                else: v = ("tup", (i, c))
                out.append((s2, self.some(x.dty, v)))
        return out

    def m_encode_utf8(self, x):
        return [(x.st, self.char_text(x.st, x.args[0]))]

    def m_len_utf8(self, x):
        c = x.args[0]
        if is_int(c) and rs_subset(x.st.F.get_mask(c), ASCII): return [(x.st, C(1))]
        n = self.I.newint(x.st, 1, 4)
        return [(x.st, n)]

    # std::array::from_fn
    def p_array_from_fn(self, x):
        t = self.I.p.types[x.dty]
        if t["k"] != "array" or "len" not in t or t["len"] > 16:
            return None
        outs = [(x.st, ())]
        cell = ("T", next(dom._counter))
        x.st.mem[cell] = x.args[0]
        for k in range(t["len"]):
            nxt = []
            for s, vs in outs:
                for s2, v in self.I.call_value(s, ("ref", cell, ()), [C(k)], t["e"]):
                    nxt.append((s2, vs + (v,)))
            outs = nxt
        for s, _ in outs: s.mem.pop(cell, None)
        return [(s, ("arr", vs)) for s, vs in outs]

    # ------------------------------------------------------------ slab
    def gone(self, st, cell):
        v = st.mem.get(cell)
        return v is not None and v[0] == "gone"

    def slab_get(self, x):
        i = x.args[1]
        if not is_int(i): return None
        cell = self.entry_cell(x.st, i)
        if self.gone(x.st, cell):
            return [(x.st, self.none(x.dty))]
        out = [(x.st, self.some(x.dty, ("ref", cell, ())))]
        if self.maybe_missing(x.st, cell):
            s = x.st.copy()
            s.mem[cell] = ("gone",)
            out.append((s, self.none(x.dty)))
        return out

    def entry_cell(self, st, i):
        c = ("E", i)
        if c in st.mem: return c
        if len(st.mem) < 4000:
            for k in st.mem:
                if k[0] == "E" and len(k[1][2]) == len(i[2]) and st.F.eq(k[1], i):
                    return k
        return c

    def maybe_missing(self, st, cell):
        if cell in st.mem and st.mem[cell][0] != "sym": return False
        f = getattr(self.I, "may_miss", None)
        return bool(f and f(st, cell))

    def slab_insert(self, x):
        st = x.st
        s = fresh("id")
        i = S(s)
        st.F.row(s)
        cell = ("E", i)
        st.mem[cell] = x.args[1]
        st.dirty = st.dirty | {cell}
        if self.I.on_heap is not None: self.I.on_heap(st, "insert", i, x.args[1], x)
        return [(st, i)]

    def slab_remove(self, x, opt):
        i = x.args[1]
        if not is_int(i): return None
        cell = self.entry_cell(x.st, i)
        out = []
        if self.gone(x.st, cell):
            if opt: return [(x.st, self.none(x.dty))]
            self.I.panic(x.st, x.caller, "removal of a missing entry", x.line)
            return []
        if self.maybe_missing(x.st, cell):
            s = x.st.copy(); s.mem[cell] = ("gone",)
            if opt: out.append((s, self.none(x.dty)))
            else: self.I.panic(s, x.caller, "removal of a missing entry", x.line)
        v = self.I.read(x.st, cell)
        x.st.mem[cell] = ("gone",)
        x.st.dirty = x.st.dirty | {cell}
        if self.I.on_heap is not None: self.I.on_heap(x.st, "remove", i, v, x)
        out.append((x.st, self.some(x.dty, v) if opt else v))
        return out

    def m_try_remove(self, x): return self.slab_remove(x, True)

    # ------------------------------------------------------------ string store
    def sid(self, st, v):
        v = self.deref(st, v)
        if v[0] == "adt" and v[3] and v[3][0][0] in ("hash", "hashb"):
            return v[3][0][1]
        if v[0] in ("hash", "hashb"): return v[1]
        return None

    def smap_get(self, x):
        t = self.sid(x.st, x.args[1])
        if t is None: return None
        out = [(x.st, self.some(x.dty, t))]
        if self.I.store_missing:
            out.append((x.st.copy(), self.none(x.dty)))
        return out

    def m_contains_key(self, x):
        t = self.sid(x.st, x.args[1])
        if t is None: return None
        if ("stored", t) in x.st.F.eqs: return [(x.st, ("b", True))]
        s = x.st.copy(); s.F.eqs[("stored", t)] = True
        return [(s, ("b", True)), (x.st.copy(), ("b", False))]

    def m_entry(self, x):
        t = self.sid(x.st, x.args[1])
        v = self.deref(x.st, x.args[0])
        if t is None or v[0] != "smap": return None
        ty = self.I.p.types[x.dty]
        if "v" not in ty: return None
        out = []
        for vi, var in enumerate(ty["v"]):
            s = x.st.copy()
            if var["name"] == "Occupied": s.F.eqs[("stored", t)] = True
            out.append((s, ("adt", x.dty, vi, (("obj", "vacant" if var["name"] == "Vacant" else "occupied", t),))))
        return out

    def vacant_insert(self, x):
        v = self.deref(x.st, x.args[0])
        self.stored(x.st, v[2], self.as_text(x.st, x.args[1]), x)
        return [(x.st, v[2])]

    def stored(self, st, key, val, x):
        good = val is not None and key == val
        if good: st.F.eqs[("stored", key)] = True
        if self.I.on_store is not None: self.I.on_store(st, key, val, x)

    def smap_insert(self, x):
        t = self.sid(x.st, x.args[1])
        if t is None: return None
        self.stored(x.st, t, self.as_text(x.st, x.args[2]), x)
        return [(x.st, self.none(x.dty))]

    def m_or_insert_with(self, x):
        v = x.args[0]
        if v[0] != "adt" or not v[3] or v[3][0][0] != "obj": return None
        o = v[3][0]
        if o[1] == "occupied": return [(x.st, o[2])]
        out = []
        for s, r in self.I.call_value(x.st, x.args[1], [], None):
            self.stored(s, o[2], self.as_text(s, r), x)
            out.append((s, o[2]))
        return out

    def m_or_insert(self, x):
        v = x.args[0]
        if v[0] != "adt" or not v[3] or v[3][0][0] != "obj": return None
        o = v[3][0]
        if o[1] == "vacant": self.stored(x.st, o[2], self.as_text(x.st, x.args[1]), x)
        return [(x.st, o[2])]

    # ------------------------------------------------------------ numbers as text
    def m_format(self, x):
        if x.n != "Buffer::format": return None
        lib = "itoa" if "itoa" in x.path else "ryu"
        v = x.args[1]
        t = self.I.text(x.st, (lib, v, x.atys[1] if len(x.atys) > 1 else None))
        return [(x.st, t)]

    def m_parse(self, x):
        """Numeric parsing of a text: Ok(value named after the text and the type) or Err."""
        v = self.as_text(x.st, x.args[0])
        if v is None or x.dty is None: return None
        t = self.I.p.types[x.dty]
        if "v" not in t: return None
        vt = t["v"][self.I.vindex(x.dty, "Ok")]["f"][0][1]
        vs = self.I.p.types[vt]["s"]
        lib = "lexical_core" if "lexical" in x.path else "std"
        key = ("parses", lib, vs, v)
        known = x.st.F.eqs.get(key)
        out = []
        if known is None or known:
            s = x.st.copy(); s.F.eqs[key] = True
            out.append((s, self.ok(x.dty, ("obj", "parsed", lib, vs, v))))
        if known is None or not known:
            s = x.st.copy(); s.F.eqs[key] = False
            out.append((s, self.err(x.dty, ("top", "parse error"))))
        return out

    # ------------------------------------------------------------ formatting and writing
    def m_new_display(self, x): return [(x.st, ("obj", "farg", "display", x.args[0], x.atys[0]))]
    def m_new_debug(self, x): return [(x.st, ("obj", "farg", "debug", x.args[0], x.atys[0]))]
    def m_new_lower_hex(self, x): return [(x.st, ("obj", "farg", "hex", x.args[0], x.atys[0]))]
    def m_new_upper_hex(self, x): return [(x.st, ("obj", "farg", "HEX", x.args[0], x.atys[0]))]

    def m_from_str(self, x):
        if "Arguments" in x.path:
            t = self.as_text(x.st, x.args[0])
            return [(x.st, ("obj", "fmt", (("t", t),)))]
        return None

    def p_Arguments_from_str_nonconst(self, x): return self.m_from_str(x)

    def fmt_arguments(self, x):
        t = self.deref(x.st, x.args[0])
        a = self.deref(x.st, x.args[1])
        if t[0] == "arr":
            tb = bytes(e[1] for e in t[1])
        elif t[0] == "bytes":
            tb = b"".join(p[1] for p in t[1])
        else: return None
        if a[0] == "list": args = [p[1] for p in a[1]]
        elif a[0] == "arr": args = list(a[1])
        else: return None
        items = parse_template(tb)
        if items is None:
            return None
        out, k = [], 0
        for it in items:
            if it[0] == "lit":
                out.append(("t", ("bytes", (("lit", it[1]),))))
            else:
                idx = it[2] if it[2] is not None else k
                k = idx + 1
                out.append(("a", args[idx], it[1]))
        return [(x.st, ("obj", "fmt", tuple(out)))]

    def emit(self, x, st, w, text, lossy=False):
        """Text handed to a writer; [(state, ok)]"""
        tgt = self.deref(st, w) if w is not None else None
        r = self.innermost(st, w) if w is not None else None
        if tgt is not None and tgt[0] == "bytes" and r is not None:
            self.I.write(st, r[1], r[2], self.cat(tgt, ("bytes", (("lossy", text),)) if lossy else text))
            return [(st, True)]
        return self.I.emit(st, text, lossy, x)

    def result_unit(self, x, st, ok):
        t = self.I.p.types[x.dty]
        if ok:
            return self.ok(x.dty, ("tup", ()))
        et = t["v"][self.I.vindex(x.dty, "Err")]["f"][0][1]
        return self.err(x.dty, ("obj", "ioerr", 0))

    def _emit1(self, x, text, lossy=False):
        return [(s, self.result_unit(x, s, ok)) for s, ok in self.emit(x, x.st, x.args[0], text, lossy)]

    def m_write_all(self, x):
        t = self.as_text(x.st, x.args[1])
        if t is None:
            self.I.note(x.st, "written value"); t = ("bytes", (("any", "w"),))
        return self._emit1(x, t)
    def m_write_str(self, x): return self.m_write_all(x)
    def m_write_char(self, x): return self._emit1(x, self.char_text(x.st, x.args[1]))

    def m_flush(self, x): return [(x.st, self.result_unit(x, x.st, True))]
    def m_by_ref(self, x): return [(x.st, x.args[0])]

    def m_write_fmt(self, x):
        a = self.deref(x.st, x.args[1])
        if a[0] != "obj" or a[1] != "fmt": return None
        states = [(x.st, True)]
        for part in a[2]:
            nxt = []
            for s, ok in states:
                if not ok: nxt.append((s, ok)); continue
                if part[0] == "t": nxt.extend(self.emit(x, s, x.args[0], part[1])); continue
                nxt.extend(self.emit_arg(x, s, part[1], part[2]))
            states = nxt
        return [(s, self.result_unit(x, s, ok)) for s, ok in states]

    def emit_arg(self, x, s, arg, opts):
        _, _, kind, val, ti = arg
        v = self.deref(s, val)
        ty = self.I.p.peel(ti) if ti is not None else None
        if kind == "display":
            if v[0] == "bytes" or self.as_text(s, v) is not None:
                t = self.as_text(s, v)
                lossy = ty is not None and self.I.p.types[ty]["k"] == "adt" and self.I.p.types[ty]["path"] in ("bstr::BStr", "bstr::BString")
                return self.emit(x, s, x.args[0], t, lossy)
            if is_int(v) and ty is not None and self.I.p.types[ty]["k"] == "char":
                return self.emit(x, s, x.args[0], self.char_text(s, v))
            if v[0] == "adt" and ty is not None:
                k = self.display_impl(ty)
                if k is not None:
                    out = []
                    for s2, r in self.I.run_fn(k, [val, x.args[0]], s):
                        if r[0] == "adt":
                            out.append((s2, self.I.p.types[r[1]]["v"][r[2]]["name"] == "Ok"))
                        else: out.append((s2, True))
                    return out
            t = self.I.text(s, ("display", v))
            return self.emit(x, s, x.args[0], t)
        if kind in ("hex", "HEX") and is_int(v) and opts == "02":
            if is_const(v):
                return self.emit(x, s, x.args[0], ("bytes", (("lit", (b"%02x" if kind == "hex" else b"%02X") % v[1]),)))
            return self.emit(x, s, x.args[0], ("bytes", (("hex2", v),)))
        t = self.I.text(s, ("fmt", kind, opts, v))
        return self.emit(x, s, x.args[0], t)

    def display_impl(self, ty):
        s = self.I.p.types[ty]["path"]
        for k, f in self.I.p.fns.items():
            if f.get("local") and not f.get("failed") and k.startswith("<" + s) and " as std::fmt::Display>::fmt" in k:
                return k
        return None

    def m_fmt(self, x):
        """Display::fmt of a text."""
        if "Display" not in x.n: return None
        v = self.as_text(x.st, x.args[0])
        if v is None: return None
        lossy = x.n.startswith("BStr")
        return [(s, self.result_unit(x, s, ok)) for s, ok in self.emit(x, x.st, x.args[1], v, lossy)]

    # ------------------------------------------------------------ panics
    def _panic(self, x):
        msg = x.n
        self.I.panic(x.st, x.caller, msg, x.line)
        return []
    m_panic_fmt = m_panic = m_panic_nounwind = m_panic_nounwind_fmt = m_panic_display = m_panic_explicit = m_unreachable_display = _panic
    m_expect_failed = m_unwrap_failed = m_unwrap_failed_inner = m_assert_failed = m_assert_failed_inner = m_panic_bounds_check = m_begin_panic = _panic
    m_panic_const_add_overflow = m_panic_const_sub_overflow = m_slice_index_fail = m_abort = m_panic_str_2015 = m_todo = _panic
    m_slice_start_index_len_fail = m_slice_end_index_len_fail = m_slice_index_order_fail = m_handle_alloc_error = _panic

    # user iterators
    def m_peekable(self, x):
        it = x.args[0]
        t = self.I.p.types[x.dty]
        if t["k"] == "adt" and "v" in t and it[0] == "obj":
            fs = []
            for nme, fty in t["v"][0]["f"]:
                fs.append(it if nme == "iter" else self.none(fty))
            return [(x.st, ("adt", x.dty, 0, tuple(fs)))]
        return None

    def m_enumerate(self, x):
        it = x.args[0]
        t = self.I.p.types[x.dty]
        if t["k"] == "adt" and "v" in t and it[0] == "obj":
            return [(x.st, ("adt", x.dty, 0, tuple(it if nme == "iter" else C(0) for nme, fty in t["v"][0]["f"])))]
        return None

def st_eq(st, a, b):
    return a == b or st.F.eq(a, b)

class Call:
    __slots__ = ("M", "st", "cal", "args", "atys", "dty", "caller", "line", "n", "m", "path")
    def __init__(self, M, st, cal, args, atys, dty, caller, line, n, m, path):
        self.M, self.st, self.cal, self.args, self.atys, self.dty = M, st, cal, args, atys, dty
        self.caller, self.line, self.n, self.m, self.path = caller, line, n, m, path

def parse_template(tb):
    """Decode the byte template of core::fmt::Arguments::new; None if a form is not understood."""
    out, i = [], 0
    while i < len(tb):
        n = tb[i]; i += 1
        if n == 0:
            break
        if n < 0x80:
            out.append(("lit", tb[i:i + n])); i += n
        elif n == 0x80:
            l = tb[i] | tb[i + 1] << 8; i += 2
            out.append(("lit", tb[i:i + l])); i += l
        else:
            flags = width = prec = idx = None
            if n & 1: flags = int.from_bytes(tb[i:i + 4], "little"); i += 4
            if n & 2: width = int.from_bytes(tb[i:i + 2], "little"); i += 2
            if n & 4: prec = int.from_bytes(tb[i:i + 2], "little"); i += 2
            if n & 8: idx = int.from_bytes(tb[i:i + 2], "little"); i += 2
            o = ""
            if n & 0x30: o = "?"
            elif flags is not None or width is not None:
                zero = bool(flags and (flags >> 24) & 1)
                o = ("0" if zero else "") + (str(width) if width is not None else "") if (flags is None or prec is None) else "?"
            if prec is not None: o = "?"
            out.append(("arg", o, idx))
    return out
