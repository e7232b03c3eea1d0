"""Regular languages over arbitrary tokens: inclusion with a shortest counterexample."""
from collections import deque

EPS = ("cat", ())
def tok(t): return ("tok", t)
def cat(*r): return ("cat", tuple(r))
def alt(*r): return ("alt", tuple(r))
def star(r): return ("star", r)
def opt(r): return ("alt", (EPS, r))
def lit(b): return ("cat", tuple(("tok", x) for x in b))

class Nfa:
    def __init__(self, r):
        self.eps, self.mv, self.n = {}, {}, 0
        self.a, self.z = self.build(r)

    def new(self):
        self.n += 1
        return self.n

    def build(self, r):
        a, z = self.new(), self.new()
        if r[0] == "tok":
            self.mv.setdefault(a, []).append((r[1], z))
        elif r[0] == "cat":
            cur = a
            for x in r[1]:
                i, o = self.build(x)
                self.eps.setdefault(cur, []).append(i)
                cur = o
            self.eps.setdefault(cur, []).append(z)
        elif r[0] == "alt":
            for x in r[1]:
                i, o = self.build(x)
                self.eps.setdefault(a, []).append(i)
                self.eps.setdefault(o, []).append(z)
        elif r[0] == "star":
            i, o = self.build(r[1])
            for u, v in ((a, i), (o, i), (o, z), (a, z)):
                self.eps.setdefault(u, []).append(v)
        else:
            raise ValueError(r)
        return a, z

    def close(self, s):
        out, work = set(s), list(s)
        while work:
            for y in self.eps.get(work.pop(), ()):
                if y not in out:
                    out.add(y); work.append(y)
        return frozenset(out)

    def step(self, s):
        out = {}
        for x in s:
            for t, y in self.mv.get(x, ()):
                out.setdefault(t, set()).add(y)
        return {t: self.close(v) for t, v in out.items()}

def beyond(r, spec, match=lambda t, s: t == s):
    """A shortest word of r that spec does not contain, or None. `match(token of r, token of spec)`."""
    A, B = Nfa(r), Nfa(spec)
    s0 = (A.close([A.a]), B.close([B.a]))
    seen, work = {s0}, deque([(s0, ())])
    while work:
        (x, y), w = work.popleft()
        if A.z in x and B.z not in y:
            return w
        sb = B.step(y)
        for t, x2 in A.step(x).items():
            y2 = frozenset().union(*[v for s, v in sb.items() if match(t, s)])
            k = (x2, y2)
            if k not in seen:
                seen.add(k); work.append((k, w + (t,)))
    return None
