"""C17: lookups, removals and sizes of containers."""
from .. import ir, lib
from ..dom import *
from ..report import Report

READ = ("get", "first", "last", "len", "is_empty")
EDIT = ("get_mut", "get_into_mut", "remove", "clear")

def methods(p):
    for (ty, tr, m), key in sorted(lib.api(p).items(), key=str):
        if tr is None and ty in ("Mapping", "Sequence", "MappingMut", "SequenceMut") and p.item.get(key, {}).get("pub", True):
            yield ty, m, key

def run():
    rep = Report("C17", "other", "abstract interpretation of the container operations",
        "Every lookup, removal and size method of both containers is interpreted over a symbolic list of n entries (n, the index and all keys unknown). In each outcome the facts known at the return are "
        "compared with what was returned and with the list left behind: an entry may be handed out or removed only where the index is below n or the key is known to match, 'absent' may be answered only where "
        "the index is known to be at least n or every key is known to differ, and no outcome may panic.", ["the documented behaviour of Vec, slices and Option"])
    p = ir.load("all")
    R = lib.Runner(p)
    found = {}
    for ty, m, key in methods(p):
        if m in READ or m in EDIT:
            found.setdefault(ty.replace("Mut", ""), set()).add(m)
            check(rep, p, R, ty, m, key)
    rep.floor("anchors", "mapping operations", len(found.get("Mapping", ())), 7)
    rep.floor("anchors", "sequence operations", len(found.get("Sequence", ())), 9)
    return rep

def check(rep, p, R, ty, m, key):
    kind = ty.replace("Mut", "")
    name = ty + "::" + m
    I, outs = R.run(key, views=lib.self_views(kind))
    if I.failed or not outs:
        rep.undecided("outcome", name + ": " + str(I.failed)); return
    for q in I.panics:
        if q["taint"]: rep.undecided("panic", name + ": " + q["msg"])
        else: rep.bad("panic", name, name + " can panic: " + q["msg"])
    rep.ok("panic", name)
    seen = set()
    for st, v in outs:
        if st.taint:
            rep.undecided("outcome", name + ": " + ", ".join(sorted(st.taint))); continue
        c = lib.Container(I, st, kind)
        if not c.known:
            rep.undecided("outcome", name + ": self"); continue
        one(rep, p, I, st, v, c, kind, m, name, seen)
    if m in ("get", "get_mut", "get_into_mut", "remove", "first", "last") and not seen >= {True, False} and not any(name in u for u in rep.und):
        rep.bad("outcome", name + "/always", "%s always gives the same answer" % name)

def presence(I, st, c, kind, k):
    """Is the entry at k (None: no entry) the one that was asked for?"""
    if kind == "Sequence":
        a = S(next((s for s, o in I.origin.items() if o == ("a1",)), -1))
        if mono(a) == -1:
            return None
        if k is None:
            return lib.le(st, c.n, a) or (None if I.loops else False)
        return lib.both(lib.eq(st, k, a), lib.le(st, addc(a, 1), c.n) or (None if I.loops else False))
    if k is None:
        return c.no_match(C(0), c.n, "a1")[0] or known_absent(c, st)
    return c.match_at(k, "a1")[0]

def known_absent(c, st):
    # some key is known to match although nothing was found
    for b, fld in c.keybases("a1"):
        for (bb, pos), v in st.F.byte.items():
            if bb == b and st.F.get_mask(v) == ((1, 1),):
                return False
    return None if any(True for _ in c.keybases("a1")) or st.F.le(c.n, C(0)) else False

def one(rep, p, I, st, v, c, kind, m, name, seen):
    d = lib.describe(I, st, v)
    dirty = lib.changed(I, st)
    if d is None:
        rep.undecided("outcome", name + ": result"); return
    if m in ("len", "is_empty"):
        rep.check("readonly", not dirty, name, name + " writes to the document", name)
        if m == "len":
            ok = lib.eq(st, d[1], c.n) if d[0] == "int" else None
        else:
            b = d[1] if d[0] == "bool" else None
            if d[0] == "int" and is_const(d[1]): b = bool(d[1][1])
            z = lib.eq(st, c.n, C(0))
            if z is None or (z is False and not st.F.le(C(1), c.n)): z = None
            ok = None if b is None else (b == z if z is not None else False)
        lib.verdict(rep, "size", ok, name, name + " does not agree with the list of entries", name)
        return
    if m == "clear":
        l = c.after()
        empty = (l is None and st.F.le(c.n, C(0))) or (type(l) is tuple and not l[1])
        lib.verdict(rep, "clear", True if empty else None if l == "bad" else False, name, name + " leaves entries behind", name)
        return
    if m in ("get", "get_mut", "get_into_mut", "first", "last"):
        rep.check("readonly", not dirty, name, name + " writes to the document", name)
        if d == ("none",):
            seen.add(False)
            ok = lib.eq(st, c.n, C(0)) if m in ("first", "last") else presence(I, st, c, kind, None)
            if ok is False and m in ("first", "last") and not st.F.le(C(1), c.n): ok = False
            lib.verdict(rep, "absent", ok, name, name + " can yield nothing although the entry exists", name + " nothing")
            return
        seen.add(True)
        if d[0] != "view":
            rep.undecided("present", name + ": result"); return
        k = c.place(d[2])
        if k is None:
            lib.verdict(rep, "present", None if lib.node(I, d[2]) is None else False, name + "/node", name + " yields something that is not the value of an entry of the container"); return
        if m == "first": ok = lib.eq(st, k, C(0))
        elif m == "last": ok = lib.eq(st, addc(k, 1), c.n)
        else: ok = presence(I, st, c, kind, k)
        lib.verdict(rep, "present", ok, name, name + " yields the value of another entry", name + " found")
        return
    # remove
    b = d[1] if d[0] == "bool" else bool(d[1][1]) if d[0] == "int" and is_const(d[1]) else None
    l = c.after()
    if b is None or l == "bad":
        rep.undecided("remove", name + ": result"); return
    seen.add(b)
    if not b:
        rep.check("remove", l is None and not any(x[0] == "E" for x in dirty), name + "/unchanged", name + " answers that nothing was removed but changes the document", name + " unchanged")
        lib.verdict(rep, "absent", presence(I, st, c, kind, None), name, name + " can answer that nothing was removed although the entry exists", name + " nothing")
        return
    k = removed(c, st, l)
    if k is None:
        rep.bad("remove", name + "/list", name + " answers that the entry was removed but does not take out exactly one entry"); return
    lib.verdict(rep, "present", presence(I, st, c, kind, k), name, name + " removes another entry", name + " removed")
    rep.ok("remove", name + " list")

def removed(c, st, l):
    """k if the list is the initial one without entry k."""
    if l is None:
        return None
    cand = [p[3] for p in l[1] if p[0] == "sl"] + [addc(p[2], -1) for p in l[1] if p[0] == "sl"] + [C(0), addc(c.n, -1)]
    for k in cand:
        if c.is_list(l, [(C(0), k), (addc(k, 1), c.n)]) and st.F.le(C(0), k) and st.F.le(addc(k, 1), c.n):
            return k
    return None
