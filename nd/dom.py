"""Abstract domain: linear terms, difference bounds, byte classes, text facts, and joins.

A value is a nested tuple. Integer terms are ('i', offset, ((symbol, coefficient), ...)).
Facts about symbols live in `Facts`; `AU` joins two (value, facts) pairs by anti-unification:
every pair of differing terms becomes one symbol, so equalities that hold on both sides survive."""
from . import lang
import itertools
import numpy as np

INF = float("inf")
LENMAX = 2.0 ** 40          # stands for isize::MAX (the largest length of any allocation)
UMAX = 2.0 ** 44            # stands for usize::MAX: more than any sum of two lengths

_counter = itertools.count(1)
TRACE = False
RIGID = set()               # symbols that name initial values: the same symbol on every path
KIND = {}                   # symbol -> 'z' (zone integer) | 'm' (byte/char/bool class) | 'id' (slab index) | 'o' (other)

def fresh(kind):
    s = next(_counter)
    KIND[s] = kind
    return s

# ------------------------------------------------------------------ terms
def C(n):
    return ("i", n, ())

def S(sym, off=0):
    return ("i", off, ((sym, 1),))

def is_int(v):
    return type(v) is tuple and len(v) == 3 and v[0] == "i"

def is_const(v):
    return is_int(v) and not v[2]

def add(f, g):
    if not g[2]:
        return ("i", f[1] + g[1], f[2])
    if not f[2]:
        return ("i", f[1] + g[1], g[2])
    d = dict(f[2])
    for s, c in g[2]:
        n = d.get(s, 0) + c
        if n:
            d[s] = n
        else:
            d.pop(s, None)
    return ("i", f[1] + g[1], tuple(sorted(d.items())))

def scale(f, k):
    if k == 0:
        return C(0)
    return ("i", f[1] * k, tuple((s, c * k) for s, c in f[2]))

def sub(f, g):
    return add(f, scale(g, -1))

def addc(f, n):
    return ("i", f[1] + n, f[2])

def mono(f):
    """The symbol of a term of the form symbol + constant, 0 for constants, None otherwise."""
    if not f[2]:
        return 0
    if len(f[2]) == 1 and f[2][0][1] == 1:
        return f[2][0][0]
    return None

# ------------------------------------------------------------------ range sets
FULL8 = ((0, 255),)
CHARS = ((0, 0xD7FF), (0xE000, 0x10FFFF))
BOOL = ((0, 1),)

def rs(*rs_):
    """Range set from integers and pairs."""
    out = []
    for r in sorted((r, r) if isinstance(r, int) else r for r in rs_):
        if out and r[0] <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(out[-1][1], r[1]))
        else:
            out.append(r)
    return tuple(out)

def rs_union(a, b):
    if a == b:
        return a
    return rs(*(a + b))

def rs_inter(a, b):
    if a == b:
        return a
    out = []
    for x in a:
        for y in b:
            lo, hi = max(x[0], y[0]), min(x[1], y[1])
            if lo <= hi:
                out.append((lo, hi))
    return rs(*out)

def rs_minus(a, b):
    out = list(a)
    for y in b:
        nxt = []
        for x in out:
            if y[1] < x[0] or y[0] > x[1]:
                nxt.append(x)
                continue
            if x[0] < y[0]:
                nxt.append((x[0], y[0] - 1))
            if x[1] > y[1]:
                nxt.append((y[1] + 1, x[1]))
        out = nxt
    return tuple(out)

def rs_subset(a, b):
    return not rs_minus(a, b)

def rs_shift(a, k):
    return tuple((x + k, y + k) for x, y in a)

def rs_size(a):
    return sum(y - x + 1 for x, y in a)

def rs_iter(a):
    for x, y in a:
        yield from range(x, y + 1)

def rs_has(a, n):
    return any(x <= n <= y for x, y in a)

def rs_str(a):
    def ch(c):
        return repr(chr(c))[1:-1] if c < 128 else "%x" % c
    return "[" + "".join(ch(x) if x == y else ch(x) + "-" + ch(y) for x, y in a) + "]"

# ------------------------------------------------------------------ facts
class Facts:
    __slots__ = ("idx", "D", "mask", "byte", "segs", "eqs", "var", "misc")

    def __init__(self):
        self.idx = {0: 0}
        self.D = np.zeros((1, 1))
        self.mask = {}
        self.byte = {}      # (base, position term) -> value term of that byte
        self.segs = ()      # ((base, from, to, mask), ...): every byte of base[from..to) is in mask
        self.eqs = {}       # key -> bool, for text equality
        self.var = {}       # name of a lazily known enum -> variant index
        self.misc = {}      # other facts, name -> value

    def copy(self):
        f = Facts.__new__(Facts)
        f.idx = dict(self.idx); f.D = self.D; f.mask = dict(self.mask); f.byte = dict(self.byte)
        f.segs = self.segs; f.eqs = dict(self.eqs); f.var = dict(self.var); f.misc = dict(self.misc)
        return f

    # ---- zone
    def row(self, s):
        i = self.idx.get(s)
        if i is not None:
            return i
        i = len(self.idx)
        n = self.D.shape[0]
        D = np.full((n + 1, n + 1), INF)
        D[:n, :n] = self.D
        D[n, n] = 0
        if KIND[s] == "z":
            D[:n, n] = self.D[:, 0]        # x - s <= x - 0, as s >= 0
        self.idx[s] = i
        self.D = D
        return i

    def _le(self, x, y, c):
        """Add x - y <= c; False if that contradicts what is known."""
        i, j = self.row(x), self.row(y)
        D = self.D
        if D[i, j] <= c:
            return True
        if D[j, i] + c < 0:
            return False
        N = D[:, i][:, None] + (c + D[j, :][None, :])
        self.D = np.minimum(D, N)
        return True

    def close(self):
        """Shortest paths: widening leaves differences out that others imply."""
        D = self.D.copy()
        for k in range(D.shape[0]):
            D = np.minimum(D, D[:, k][:, None] + D[k, :][None, :])
        if not (np.diag(D) < 0).any():
            self.D = D

    def ub(self, x, y):
        if x == y:
            return 0
        i, j = self.idx.get(x), self.idx.get(y)
        if i is None or j is None:
            # unknown symbols: unsigned zone integers are >= 0
            if i is None and j is None:
                return INF
            if i is None:
                return INF if x else INF
            if y and KIND[y] == "z":
                return self.D[i, 0]
            return INF
        return self.D[i, j]

    def _symb(self, s):
        """(lo, hi) of a symbol."""
        m = self.mask.get(s)
        if m is not None:
            return (m[0][0], m[-1][1]) if m else (0, 0)
        i = self.idx.get(s)
        if i is None:
            return (0, INF) if KIND.get(s) == "z" else (-INF, INF)
        return (-self.D[0, i], self.D[i, 0])

    def bounds(self, f):
        """(lo, hi) of a term."""
        d = f[2]
        if not d:
            return f[1], f[1]
        if len(d) == 1:
            lo, hi = self._symb(d[0][0])
            c = d[0][1]
            return (f[1] + c * lo, f[1] + c * hi) if c > 0 else (f[1] + c * hi, f[1] + c * lo)
        if len(d) == 2 and d[0][1] == -d[1][1] and abs(d[0][1]) == 1:
            (a, ca), (b, cb) = d
            x, y = (a, b) if ca == 1 else (b, a)
            if KIND[x] != "m" and KIND[y] != "m":
                return f[1] - self.ub(y, x), f[1] + self.ub(x, y)
        # general: pair positive and negative symbols, in a few ways
        best = (-INF, INF)
        for turn in range(min(3, len(d)) if len(d) > 2 else 1):
            lo, hi = self._paired(f, d[turn:] + d[:turn])
            best = (max(best[0], lo), min(best[1], hi))
        return best

    def _paired(self, f, d):
        lo = hi = f[1]
        neg = [[s, -c] for s, c in d if c < 0]
        pos = [[s, c] for s, c in d if c > 0]
        for p in pos:
            for q in neg:
                k = min(p[1], q[1])
                if k > 0 and KIND[p[0]] != "m" and KIND[q[0]] != "m" and (self.ub(p[0], q[0]) < INF or self.ub(q[0], p[0]) < INF):
                    a, b = -self.ub(q[0], p[0]), self.ub(p[0], q[0])
                    lo += k * a; hi += k * b
                    p[1] -= k; q[1] -= k
        for s, c in pos:
            if c:
                a, b = self._symb(s)
                lo += c * a; hi += c * b
        for s, c in neg:
            if c:
                a, b = self._symb(s)
                lo -= c * b; hi -= c * a
        return lo, hi

    def diff(self, f, g):
        return self.bounds(sub(f, g))

    def eq(self, f, g):
        return f == g or self.le(f, g) and self.le(g, f)

    def le(self, f, g):
        """f <= g is known."""
        if f == g:
            return True
        a, b = f[2], g[2]
        if len(a) <= 1 and len(b) <= 1:
            u = a[0] if a else (0, 1)
            v = b[0] if b else (0, 1)
            if u[1] == 1 == v[1] and u[0] not in self.mask and v[0] not in self.mask:
                return f[1] - g[1] + self.ub(u[0], v[0]) <= 0
        return self.diff(f, g)[1] <= 0

    def assume_le(self, f, g, c=0):
        """Add f - g <= c; False if impossible."""
        h = sub(f, g)
        lo, hi = self.bounds(h)
        if hi <= c:
            return True
        if lo > c:
            return False
        d = h[2]
        k = c - h[1]
        if len(d) == 1:
            s, co = d[0]
            if s in self.mask:
                if co == 1:
                    m = rs_inter(self.mask[s], ((-10**9, int(k)),))
                elif co == -1:
                    m = rs_inter(self.mask[s], ((int(-k), 10**9),))
                else:
                    return True
                if not m:
                    return False
                self.mask[s] = m
                return True
            if co == 1:
                return self._le(s, 0, k)
            if co == -1:
                return self._le(0, s, k)
            return True
        if len(d) == 2 and {d[0][1], d[1][1]} == {1, -1}:
            x, y = (d[0][0], d[1][0]) if d[0][1] == 1 else (d[1][0], d[0][0])
            if x in self.mask or y in self.mask:
                return True
            return self._le(x, y, k)
        # more symbols than a difference: keep what it says about each alone
        for s, co in d:
            if abs(co) == 1 and s not in self.mask:
                rest = sub(h, ("i", 0, ((s, co),)))
                m = c - self.bounds(rest)[0]
                if m < INF and not (self._le(s, 0, m) if co == 1 else self._le(0, s, m)):
                    return False
        return True

    def assume_eq(self, f, g):
        h = sub(f, g)
        d = h[2]
        if len(d) == 1 and d[0][0] in self.mask and abs(d[0][1]) == 1:
            v = -h[1] * d[0][1]
            m = rs_inter(self.mask[d[0][0]], ((v, v),))
            if not m:
                return False
            self.mask[d[0][0]] = m
            return True
        if len(d) == 2 and d[0][0] in self.mask and d[1][0] in self.mask and {d[0][1], d[1][1]} == {1, -1} and h[1] == 0:
            m = rs_inter(self.mask[d[0][0]], self.mask[d[1][0]])
            if not m:
                return False
            self.mask[d[0][0]] = self.mask[d[1][0]] = m
            return True
        return self.assume_le(f, g) and self.assume_le(g, f)

    def assume_ne(self, f, g):
        h = sub(f, g)
        d = h[2]
        if not d:
            return h[1] != 0
        if len(d) == 1 and d[0][0] in self.mask and abs(d[0][1]) == 1:
            v = -h[1] * d[0][1]
            m = rs_minus(self.mask[d[0][0]], ((v, v),))
            if not m:
                return False
            self.mask[d[0][0]] = m
            return True
        lo, hi = self.bounds(h)
        if lo == 0 == hi:
            return False
        if lo == 0:
            return self.assume_le(C(1), h)
        if hi == 0:
            return self.assume_le(h, C(-1))
        return True

    # ---- bytes of texts
    def get_mask(self, v):
        """Range set of an integer term."""
        if not v[2]:
            return ((v[1], v[1]),)
        if len(v[2]) == 1 and v[2][0][1] == 1 and v[2][0][0] in self.mask:
            return rs_shift(self.mask[v[2][0][0]], v[1])
        lo, hi = self.bounds(v)
        if lo == -INF:
            lo = -(10 ** 40)
        if hi == INF:
            hi = 10 ** 40
        return ((int(lo), int(hi)),)

    def find_byte(self, base, pos):
        v = self.byte.get((base, pos))
        if v is not None:
            return v
        for (b, p), v in self.byte.items():
            if b == base and self.eq(p, pos):
                return v
        return None

    def seg_mask_at(self, base, pos):
        """Mask every byte at `pos` must satisfy by the segment facts (None: unknown)."""
        m = None
        for b, x, y, k in self.segs:
            if b == base and self.le(x, pos) and self.le(addc(pos, 1), y):
                m = k if m is None else rs_inter(m, k)
        return m

    def byte_at(self, base, pos):
        """Value term of base[pos], introducing it if needed. None: contradiction."""
        v = self.find_byte(base, pos)
        if v is None:
            m = self.seg_mask_at(base, pos)
            m = FULL8 if m is None else m
            if not m:
                return None
            if rs_size(m) == 1:
                v = C(m[0][0])
            else:
                s = fresh("m")
                self.mask[s] = m
                v = S(s)
            self.byte[(base, pos)] = v
        return v

    def cover(self, base, x, y, memo=None):
        """A mask containing every byte of base[x..y), or None if unknown. () when empty."""
        if memo is None:
            memo = {}
        key = (base, y)
        if key not in memo:
            memo[key] = ([g for g in self.segs if g[0] == base], {})
        segs, done = memo[key]
        return self._cover(base, segs, x, y, done, memo, 40)

    def _cover(self, base, segs, x, y, done, memo, depth):
        if x in done:
            return done[x]
        done[x] = None
        r = done[x] = self._cover1(base, segs, x, y, done, memo, depth)
        return r

    def _cover1(self, base, segs, x, y, done, memo, depth):
        if self.eq(x, y):
            return ()
        if depth == 0 or not self.le(x, y):
            return None
        # segments covering everything
        best = full = None
        at = []
        for b, p, q, k in segs:
            if self.le(p, x) and self.le(x, q):
                if self.le(y, q):
                    full = k if full is None else rs_inter(full, k)
                elif not self.eq(q, x):
                    at.append((q, k))
        if full is not None:
            return full
        for q, k in at:
            r = self._cover(base, segs, q, y, done, memo, depth - 1)
            if r is not None:
                r = rs_union(k, r)
                if best is None or rs_size(r) < rs_size(best):
                    best = r
        if best is not None:
            return best
        v = self.find_byte(base, x)
        if v is not None and self.le(addc(x, 1), y):
            r = self._cover(base, segs, addc(x, 1), y, done, memo, depth - 1)
            if r is not None:
                return rs_union(self.get_mask(v), r)
        return None

    def add_seg(self, base, x, y, mask):
        """Assume every byte of base[x..y) is in mask. False: contradiction."""
        if self.eq(x, y):
            return True
        if not mask:
            return self.assume_eq(x, y)
        for (b, p), v in list(self.byte.items()):
            if b == base and self.le(x, p) and self.le(addc(p, 1), y):
                m = rs_inter(self.get_mask(v), mask)
                if not m:
                    return False
                if v[2] and v[2][0][0] in self.mask:
                    self.mask[v[2][0][0]] = rs_shift(m, -v[1])
        if mask != FULL8:
            self.segs = self.segs + ((base, x, y, mask),)
        return True

    # ---- projection
    def project(self, keep):
        """Forget every symbol that is not in `keep`."""
        memo = {}
        dying = [g for g in self.segs if not all(x in keep for t in g[1:3] for x, _ in t[2]) and names_ok(g[0], keep)]
        if dying:
            # what is known about stretches that run through a position that is forgotten
            for base in {g[0] for g in dying}:
                lo = {g[1] for g in self.segs if g[0] == base} | {p for b, p in self.byte if b == base}
                hi = {g[2] for g in self.segs if g[0] == base} | {addc(p, 1) for b, p in self.byte if b == base}
                live = lambda t: all(x in keep for x, _ in t[2])
                gone = {t for g in dying if g[0] == base for t in g[1:3] if not live(t)}
                if not any(t in lo and t in hi or any(self.eq(t, u) for u in lo) and any(self.eq(t, u) for u in hi) for t in gone):
                    continue
                new = []
                for p in lo:
                    for q in hi:
                        if p != q and live(p) and live(q) and self.le(p, q) and not self.eq(p, q):
                            k = self.cover(base, p, q, memo)
                            if k and k != FULL8 and not any(g[0] == base and g[3] == k and self.eq(g[1], p) and self.eq(g[2], q) for g in self.segs):
                                new.append((base, p, q, k))
                self.segs = self.segs + tuple(new)
        if self.segs and any(not (syms_of(t, set()) <= keep) for g in self.segs for t in g[1:3]):
            # positions that equal something that stays
            new = []
            for g in self.segs:
                ts = []
                for t in g[1:3]:
                    s = mono(t)
                    if s and s not in keep and s in self.idx:
                        i = self.idx[s]
                        for o, k in self.idx.items():
                            if (o == 0 or o in keep) and self.D[i, k] == -self.D[k, i]:
                                # s - o = D[i, k]
                                t = C(int(self.D[i, k]) + t[1]) if o == 0 else S(o, int(self.D[i, k]) + t[1])
                                break
                    ts.append(t)
                new.append((g[0], ts[0], ts[1]) + g[3:])
            self.segs = tuple(new)
        order = [s for s in self.idx if s == 0 or s in keep]
        if len(order) != len(self.idx):
            ii = [self.idx[s] for s in order]
            self.D = self.D[np.ix_(ii, ii)]
            self.idx = {s: k for k, s in enumerate(order)}
        ok = lambda f: all(s in keep for s, _ in f[2])
        if self.byte:
            self.byte = {k: v for k, v in self.byte.items() if ok(k[1]) and names_ok(k[0], keep)}
        live_masks = set()
        for v in self.byte.values():
            for s, _ in v[2]:
                live_masks.add(s)
        self.mask = {s: m for s, m in self.mask.items() if s in keep or s in live_masks}
        self.segs = tuple(g for g in self.segs if ok(g[1]) and ok(g[2]) and names_ok(g[0], keep))
        if self.eqs:
            self.eqs = {k: v for k, v in self.eqs.items() if names_ok(k, keep)}
        if self.var:
            self.var = {k: v for k, v in self.var.items() if names_ok(k, keep)}
        if self.misc:
            self.misc = {k: v for k, v in self.misc.items() if names_ok(k, keep)}

_SYMS = {}

def _syms(v):
    r = _SYMS.get(id(v))
    if r is not None and r[0] is v:
        return r[1]
    if len(v) == 3 and v[0] == "i":
        f = frozenset(s for s, _ in v[2])
    else:
        out = set()
        for x in v:
            if type(x) is tuple:
                out |= _syms(x)
        f = frozenset(out)
    if len(_SYMS) > 400000:
        _SYMS.clear()
    _SYMS[id(v)] = (v, f)
    return f

def syms_of(v, out):
    """Collect the symbols occurring in a value."""
    if type(v) is tuple:
        out |= _syms(v)
    return out

def names_ok(v, keep):
    return syms_of(v, set()) <= keep

def terms_of(v, path=(), out=None):
    """(structural path, term) of every integer term in a value."""
    if out is None:
        out = []
    if type(v) is tuple:
        if len(v) == 3 and v[0] == "i":
            out.append((path, v))
            return out
        for i, x in enumerate(v):
            if type(x) is tuple:
                terms_of(x, path + (i,), out)
    return out

def subst(v, m):
    """Replace symbols by terms."""
    if type(v) is tuple:
        if len(v) == 3 and v[0] == "i":
            r = C(v[1])
            for s, c in v[2]:
                r = add(r, scale(m[s], c) if s in m else ("i", 0, ((s, c),)))
            return r
        return tuple(subst(x, m) if type(x) is tuple else x for x in v)
    return v

# ------------------------------------------------------------------ joins
def plen(p):
    k = p[0]
    if k == "sub": return sub(p[3], p[2])
    if k == "lit": return C(len(p[1]))
    if k == "byte": return C(1)
    if k == "hex2": return C(2)
    if k in ("rep", "star", "alt"): return p[2]
    return None

def sig(pieces):
    """Pieces of a text with everything that varies between repetitions left out."""
    out = []
    for p in pieces:
        if p[0] == "lit":
            out.append(p)
        elif p[0] == "rep":
            out.append(("rep", p[1] if is_const(p[1]) else "*", p[2] if syms_of(p[2], set()) <= RIGID | {0} else "*"))
        elif p[0] == "sub":
            whole = p[2] == C(0) and is_int(p[3]) and p[3][1] == 0 and mono(p[3])
            out.append(("sub", hole(p[1]), p[2] if syms_of(p[2], set()) <= RIGID | {0} else "*", "len" if whole else "*"))
        elif p[0] in ("star", "alt"):
            out.append((p[0], p[1], "*"))
        elif not out or out[-1] != ("txt",):
            out.append(("txt",))
    return tuple(out)

def re_of(ps):
    """A text as a regular expression over its pieces."""
    out = []
    for p in ps:
        if p[0] == "lit": out.append(lang.lit(p[1]))
        elif p[0] == "star": out.append(lang.star(lang.alt(*[re_of(a) for a in p[1]])))
        elif p[0] == "alt": out.append(lang.alt(*[re_of(a) for a in p[1]]))
        else: out.append(lang.tok(p))
    return lang.cat(*out)

def reduce_alts(alts):
    """Leave out repetitions that the others already generate."""
    if size_of(alts) > 1500:
        return alts
    alts = sorted(alts, key=size_of)
    keep = list(alts)
    for a in reversed(alts):
        rest = [x for x in keep if x != a]
        if rest and lang.beyond(re_of(a), lang.star(lang.alt(*[re_of(x) for x in rest]))) is None:
            keep = rest
    return keep

def nesting(p):
    return 1 + max((nesting(q) for a in p[1] for q in a), default=0) if p[0] in ("star", "alt") else 0

def atoms(ps, out):
    """The pieces a text is made of, each on its own."""
    for p in ps:
        if p[0] in ("star", "alt"):
            for a in p[1]:
                atoms(a, out)
        elif (p,) not in out:
            out.append((p,))
    return out

def size_of(v):
    return sum(size_of(x) for x in v) + 1 if type(v) in (tuple, list) else 1

def hole(v):
    if type(v) is tuple:
        if is_int(v) and not is_const(v) and not syms_of(v, set()) <= RIGID:
            return "*"
        if len(v) == 2 and v[0] == "at":
            return ("at", "*")
        return tuple(hole(x) for x in v)
    return v

SEG_OFFSETS = (0,)      # distances from a position at which stretches of the input may begin or end in a joined state

class AU:
    """Anti-unification of two states (facts FA, FB)."""

    def __init__(self, FA, FB, loop=False):
        self.FA, self.FB = FA, FB
        self.loop = loop
        self.hard = False       # texts that keep changing become repetitions of their pieces
        self.m = {}             # symbol of A kept in J -> term of B
        self.pairs = {}         # (symA|None key) -> fresh symbol
        self.joined = {}        # J symbol -> (termA, termB)
        self._changed = False
        self.why = []
        self.mismatch = False

    @property
    def changed(self):
        return self._changed

    @changed.setter
    def changed(self, v):
        self._changed = v
        if TRACE and v:
            import sys
            f = sys._getframe(1)
            self.why.append((f.f_lineno, {k: x for k, x in f.f_locals.items() if k in ("a", "b", "s", "k", "ka", "kb", "va", "mj", "ma", "base", "p", "q", "name")}))

    def term(self, a, b):
        sa, sb = mono(a), mono(b)
        if a == b and sa == 0:
            return a
        if sa and sa in self.m:
            if sub(b, self.m[sa]) == C(a[1]):
                return a
        elif sa and (sb is not None or KIND[sa] == "z"):
            t = addc(b, -a[1])
            if not (KIND.get(sa) == "m" and a[1] != 0) and not (sa in RIGID and t != S(sa)):
                self.m[sa] = t
                self.joined[sa] = (S(sa), t)
                return a
        elif sa is None and all(s in self.m for s, _ in a[2]):
            if subst(a, self.m) == b:
                return a
        # a new symbol for this pair of terms
        d = (sub(a, C(a[1])), sub(b, C(a[1])))
        k = self.pairs.get(d)
        if k is None:
            if sa == 0:
                kind = "z" if sb is None else (KIND[sb] if sb else "z")
            elif sa is None:
                kind = "z"
            else:
                kind = KIND[sa]
            if kind == "m" or (sa and KIND[sa] == "m"):
                # classes are joined exactly on the terms themselves
                kind = "m"
                d = (a, b)
                k = self.pairs.get(d)
                if k is not None:
                    return S(k)
                k = fresh(kind)
                self.pairs[d] = k
                self.joined[k] = (a, b)
                self.changed = True
                return S(k)
            # keep symbols non-negative: anchor the pair at its own terms
            d0 = (a, b)
            for (pa, pb), ks in self.pairs.items():
                if is_int(pa) and KIND[ks] == kind and sub(a, pa) == sub(b, pb) and is_const(sub(a, pa)):
                    return S(ks, sub(a, pa)[1])
            k = fresh(kind)
            self.pairs[d0] = k
            self.joined[k] = (a, b)
            self.changed = True
            return S(k)
        return S(k, a[1])

    def value(self, a, b):
        if a is b and type(a) is not tuple:
            return a
        if type(a) is tuple and type(b) is tuple:
            if a and a[0] == "top":
                return a
            if len(a) == 3 and a[0] == "i":
                if len(b) == 3 and b[0] == "i":
                    return self.term(a, b)
                self.changed = self.mismatch = True
                return ("top", "join")
            if len(a) == len(b):
                if a and type(a[0]) is str and a[0] != b[0]:
                    self.changed = self.mismatch = True
                    return self.mis(a, b)
                if a and a[0] == "bytes":
                    if [p[0] for p in a[1]] != [p[0] for p in b[1]] or any(p[0] == "lit" and p != q or p[0] in ("star", "alt") and p[1] != q[1] for p, q in zip(a[1], b[1])):
                        return self.mis_bytes(a, b)
                out = []
                for x, y in zip(a, b):
                    if type(x) is tuple or type(y) is tuple:
                        if type(x) is not tuple or type(y) is not tuple:
                            self.changed = self.mismatch = True
                            return ("top", "join")
                        r = self.value(x, y)
                        if r == ("top", "join") and type(a[0]) is str and a[0] not in ("tup", "adt", "arr", "list", "obj"):
                            return r
                        out.append(r)
                    else:
                        if x != y:
                            self.changed = self.mismatch = True
                            return ("top", "join")
                        out.append(x)
                return tuple(out)
            if a and b and a[0] == "bytes" == b[0]:
                return self.mis_bytes(a, b)
            self.changed = self.mismatch = True
            return ("top", "join")
        if a == b:
            return a
        self.changed = self.mismatch = True
        return ("top", "join")

    def mis(self, a, b):
        return ("top", "join")

    def mis_bytes(self, a, b):
        """Join of two texts with different pieces: common start, then repetitions of what was appended."""
        if len(a[1]) == 1 and a[1][0][0] == "any":
            return a
        A, B, pre = list(a[1]), list(b[1]), []
        while A and B and not self.hard:
            x, y = A[0], B[0]
            if x[0] == "lit" == y[0]:
                n = 0
                while n < len(x[1]) and n < len(y[1]) and x[1][n] == y[1][n]:
                    n += 1
                if not n:
                    break
                pre.append(("lit", x[1][:n]))
                A[0:1] = [("lit", x[1][n:])] if n < len(x[1]) else []
                B[0:1] = [("lit", y[1][n:])] if n < len(y[1]) else []
                if n < len(x[1]) or n < len(y[1]):
                    break
                continue
            if x[0] == "star" == y[0] and len(A) > 1 and len(B) > 1:
                al = list(x[1]) + [g for g in y[1] if g not in x[1]]
                if len(al) > len(x[1]):
                    al = reduce_alts(al)
                    if set(al) == set(x[1]): al = list(x[1])
                if len(al) > 5:
                    break
                if al != list(x[1]):
                    self.changed = True
                pre.append(("star", tuple(al), self.term(x[2], y[2])))
                A.pop(0); B.pop(0)
                continue
            if x[0] != y[0] or x[0] == "star" or x[0] == "any" and not (x == y and x[1] == "before"):
                break
            t = [s for s in syms_of(x, set())]
            if x == y:
                for s in t:
                    if s and s not in RIGID and s not in self.m:
                        self.term(S(s), S(s))
            if any(s not in self.m and s not in RIGID and s for s in t) or subst(x, {s: self.m.get(s, S(s)) for s in t}) != y:
                if x[0] in ("sub", "rep") and x[1] == y[1] and not syms_of(x[1], set()) - RIGID - {0} and (A[1:] and B[1:]) and A[1][0] == B[1][0]:
                    pre.append(self.value(x, y))
                    A.pop(0); B.pop(0)
                    continue
                break
            pre.append(self.value(x, y))
            A.pop(0); B.pop(0)
        post = []
        while self.loop and len(A) + len(B) > 2 and A and B and not self.hard:
            x, y = A[-1], B[-1]
            if x[0] != y[0] or x[0] not in ("sub", "lit", "rep") or sig([x]) != sig([y]) or x[0] == "lit" and x != y:
                break
            post.append(self.value(x, y))
            A.pop(); B.pop()
        post.reverse()
        if not self.loop:
            r = self.alternatives(pre, A, B)
            if r is not None:
                return r
        alts = []
        na = nb = C(0)
        known = None
        if A and A[0][0] == "star" and len(A) == 1:
            known, alts = list(A[0][1]), list(A[0][1])
            na = A[0][2]
            A = []
        if B and B[0][0] == "star" and (known is not None or not A):
            alts = alts + [x for x in B[0][1] if x not in alts]
            nb = B[0][2]
            B = B[1:]
        for P, F in ((A, self.FA), (B, self.FB)):
            if P:
                g = sig(P)
                if g not in alts:
                    alts = alts + [g]
                for p in P:
                    n = plen(p)
                    if n is None:
                        n = S(fresh("z"))
                        F.row(mono(n))
                        F.assume_le(n, C(LENMAX))
                    if P is A:
                        na = add(na, n)
                    else:
                        nb = add(nb, n)
        post = tuple(post)
        if self.loop and (self.hard or any(nesting(p) > 1 for a in alts for p in a)):
            alts = atoms([p for a in alts for p in a], [])
            if known is not None and set(alts) <= set(known):
                alts = known
        elif len(alts) > 1:
            alts = reduce_alts(alts)
        if not alts:
            return ("bytes", tuple(pre) + post)
        if len(alts) > 5 or any(p[0] == "any" for p in A + B):
            if tuple(A) != (("any", "join"),):
                self.changed = True
            return ("bytes", tuple(pre) + (("any", "join"),) + post)
        if known is not None and set(alts) == set(known):
            alts = known
        if known is None or list(alts) != list(known):
            self.changed = True
        return ("bytes", tuple(pre) + (("star", tuple(sorted(alts, key=repr)) if known is None else tuple(alts), self.term(na, nb)),) + post)

    def alternatives(self, pre, A, B):
        """Join of two finished texts: common start, then one of several endings."""
        alts = []
        ns = []
        for P, F in ((A, self.FA), (B, self.FB)):
            if any(p[0] == "any" for p in P):
                return None
            if len(P) == 1 and P[0][0] == "alt":
                alts += [g for g in P[0][1] if g not in alts]
                ns.append(P[0][2])
                continue
            g = sig(P)
            if g not in alts:
                alts.append(g)
            n = C(0)
            for p in P:
                k = plen(p)
                if k is None:
                    k = S(fresh("z"))
                    F.row(mono(k))
                    F.assume_le(k, C(LENMAX))
                n = add(n, k)
            ns.append(n)
        if len(alts) > 8 or size_of(alts) > 200:
            return None
        alts = tuple(sorted(alts, key=repr))
        if not (len(A) == 1 and A[0][0] == "alt" and A[0][1] == alts):
            self.changed = True
        return ("bytes", tuple(pre) + (("alt", alts, self.term(*ns)),))

    # ---- facts of the join
    def facts(self, widen=False, seg_positions=None):
        """Facts implied on both sides, over the joined symbols. Sets self.changed if weaker than A."""
        FA, FB = self.FA, self.FB
        J = Facts()
        zs = [s for s in self.joined if KIND[s] != "m"]
        n = len(zs) + 1
        def mat(F, which):
            ts = [C(0)] + [self.joined[s][which] for s in zs]
            ok = [mono(t) is not None for t in ts]
            for t, o in zip(ts, ok):
                if o and mono(t):
                    F.row(mono(t))
            ii = [F.idx[mono(t)] if o else 0 for t, o in zip(ts, ok)]
            off = np.array([t[1] for t in ts], dtype=float)
            D = F.D[np.ix_(ii, ii)] + off[:, None] - off[None, :]
            for k, o in enumerate(ok):
                if not o:
                    for l in range(n):
                        if l != k:
                            lo, hi = F.diff(ts[k], ts[l])
                            D[k, l] = hi
                            D[l, k] = -lo
                    D[k, k] = 0
            if not all(ok):
                for k in range(n):
                    D = np.minimum(D, D[:, k][:, None] + D[k, :][None, :])
            return D
        DA, DB = mat(FA, 0), mat(FB, 1)
        D = np.maximum(DA, DB)
        weaker = D > DA
        if weaker.any():
            self.changed = True
            if widen:
                D = np.where(weaker, np.where(D <= -3, -3.0, np.where(D <= 0, D, INF)), D)
                # unsigned symbols stay non-negative
                for k, s in enumerate(zs):
                    if KIND[s] == "z":
                        D[0, k + 1] = min(D[0, k + 1], 0)
                D = np.where(np.eye(n, dtype=bool), 0, D)
        J.idx = {0: 0}
        for k, s in enumerate(zs):
            J.idx[s] = k + 1
        J.D = D
        for s, (a, b) in self.joined.items():
            if KIND[s] == "m":
                ma, mb = FA.get_mask(a), FB.get_mask(b)
                J.mask[s] = rs_union(ma, mb)
                if J.mask[s] != ma:
                    self.changed = True
            else:
                # masks on zone integers
                if mono(a) in FA.mask or mono(b) in FB.mask:
                    J.mask[s] = rs_union(FA.get_mask(a), FB.get_mask(b))
        # byte facts: positions known on both sides
        def toJ(t):
            """Candidate J terms for a term of A."""
            sa = mono(t)
            if sa is None:
                return []
            if sa == 0:
                return [t]
            out = []
            for s, (a, b) in self.joined.items():
                if KIND[s] != "m" and mono(a) == sa:
                    out.append(S(s, t[1] - a[1]))
            return out
        def img(t, which):
            return subst(t, {s: self.joined[s][which] for s, _ in t[2]})
        done, named = set(), set()
        for (base, p), va in list(FA.byte.items()):
            if not all(s in self.joined for s in syms_of(base, set())):
                continue
            bb = subst(base, {s: self.joined[s][1] for s in syms_of(base, set())})
            kept = False
            for jt in toJ(p):
                if jt in done:
                    kept = True
                    continue
                if img(jt, 0) != p:
                    continue
                vb = FB.find_byte(bb, img(jt, 1))
                if vb is None:
                    mb = FB.seg_mask_at(bb, img(jt, 1))
                    if mb is None:
                        continue
                else:
                    mb = FB.get_mask(vb)
                done.add(jt)
                kept = True
                ma = FA.get_mask(va)
                mj = rs_union(ma, mb)
                if mj != ma:
                    self.changed = True
                # keep identity of the byte when it is shared
                if va[2] and vb is not None and mono(va) in self.joined and self.joined[mono(va)][1] == addc(vb, -va[1]):
                    J.byte[(base, jt)] = va
                elif rs_size(mj) == 1:
                    J.byte[(base, jt)] = C(mj[0][0])
                else:
                    # retain A's symbol so that stability is recognised
                    s = mono(va)
                    if s and s not in self.joined and va[1] == 0 and s not in named:
                        named.add(s)
                        J.mask[s] = mj
                        J.byte[(base, jt)] = va
                    else:
                        s = fresh("m")
                        J.mask[s] = mj
                        J.byte[(base, jt)] = S(s)
            if not kept and toJ(p):
                self.changed = True
        # segment facts between the joined positions
        pos = [C(0)] + [S(s, o) for s in zs for o in SEG_OFFSETS]
        if seg_positions is not None:
            pos = [p for p in pos if p in seg_positions or p == C(0)]
        bases = {g[0] for g in FA.segs} | {g[0] for g in FB.segs} | {k[0] for k in FA.byte} | {k[0] for k in FB.byte}
        segs, later = [], []
        ma, mb = {}, {}
        for base in bases:
            if syms_of(base, set()):
                if not all(s in self.joined for s in syms_of(base, set())):
                    continue
            cand = [(p, img(p, 0), img(p, 1)) for p in pos]
            # only positions that take part in some fact on this base
            rel = []
            for p, a, b in cand:
                if self._touches(FA, base, a) or self._touches(FB, base, b):
                    rel.append((p, a, b))
            offs = []
            for p, a, b in rel:
                offs.append((p, a, b))
            for p, a, b in offs:
                for q, c, d in offs:
                    if p == q:
                        continue
                    if J.diff(p, q)[1] > 0:
                        continue
                    if FA.eq(a, c) and FB.eq(b, d):
                        continue
                    ka = FA.cover(base, a, c, ma)
                    if ka is None or ka == FULL8:
                        continue
                    kb = FB.cover(base, b, d, mb)
                    if kb is None or kb == FULL8:
                        if ka != ():
                            # A knew something that is lost
                            if any(g[0] == base and g[1] == a and g[2] == c for g in FA.segs):
                                self.changed = True
                        continue
                    k = rs_union(ka, kb)
                    if not k or k == FULL8:
                        continue
                    if k != ka:
                        later.append((base, p, q, ka))
                    segs.append((base, p, q, k))
        # drop segments implied by larger ones with the same mask
        J.segs = tuple(prune_segs(J, segs))
        if later and not self.changed:
            # less is said of this stretch, unless the other facts say it already
            self.changed = any(J.cover(*g[:3]) != g[3] for g in later)
        # text equality, variants, other facts
        inv = lambda k: all(s in self.joined for s in syms_of(k, set()))
        for name in ("eqs", "var", "misc"):
            da, db, dj = getattr(FA, name), getattr(FB, name), getattr(J, name)
            for k, v in da.items():
                if not inv(k):
                    continue
                kb = subst(k, {s: self.joined[s][1] for s in syms_of(k, set())})
                if db.get(kb) == v:
                    dj[k] = v
                else:
                    self.changed = True
        return J

    def _touches(self, F, base, t):
        for g in F.segs:
            if g[0] == base and (F.eq(g[1], t) or F.eq(g[2], t)):
                return True
        for (b, p) in F.byte:
            if b == base and (F.eq(p, t) or F.eq(addc(p, 1), t)):
                return True
        return False

def prune_segs(F, segs):
    out = []
    for g in segs:
        if any(h is not g and h[0] == g[0] and h[3] == g[3] and F.le(h[1], g[1]) and F.le(g[2], h[2])
               and not (F.eq(h[1], g[1]) and F.eq(h[2], g[2])) for h in segs):
            continue
        if any(h[0] == g[0] and h[3] == g[3] and F.eq(h[1], g[1]) and F.eq(h[2], g[2]) for h in out):
            continue
        out.append(g)
    return out
