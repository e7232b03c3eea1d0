"""C13: iterators (abstract interpretation of every iterator method against the meaning of its name)."""
from .. import ir, lib
from ..dom import *
from ..report import Report

KIND_OF = {}

def run():
    rep = Report("C13", "other", "abstract interpretation of iterator methods",
        "Every method of the crate's two iterators is interpreted over a symbolic remaining range [0, n) of a container's entries; the entry it returns and the range it "
        "leaves are compared with what the method's name promises, for all n and all step counts at once. The constructors are interpreted to show that they start with all entries.",
        ["the documented behaviour of std::slice::Iter"])
    p = ir.load("all")
    api = lib.api(p)
    its = {}
    for (ty, tr, m), key in api.items():
        if ty in ("Mapping", "Sequence") and tr is None and m == "iter":
            its[ty] = key
    rep.floor("anchors", "containers with iter()", len(its), 2)
    for kind, key in sorted(its.items()):
        check_kind(rep, p, api, kind, key)
    return rep

def check_kind(rep, p, api, kind, iter_key):
    R = lib.Runner(p)
    # the constructors: everything, in order
    starts = [k for (ty, tr, m), k in api.items() if ty.lstrip("&") == kind and (tr == "IntoIterator" and m == "into_iter" or tr is None and m == "iter")]
    out_ty = p.fns[iter_key]["locals"][0]
    for key in starts:
        I, outs = R.run(key, views=dict([(("a0", "id", "0"), {kind}), (("a0", "*", "id", "0"), {kind})]))
        name = short(key)
        if I.failed or not outs:
            rep.undecided("start", name + ": " + str(I.failed)); continue
        for st, v in outs:
            it = find_it(I, st, v)
            if st.taint or it is None:
                rep.undecided("start", name); continue
            sl = it[3]
            ok = len(sl[1]) == 1 and sl[1][0][0] == "sl" and sl[1][0][1][:1] == ("E",) and kind in sl[1][0][1] and "items" in sl[1][0][1] \
                and st.F.eq(it[4], sl[1][0][2]) and st.F.eq(sl[1][0][2], C(0)) and st.F.eq(it[5], I.length(st, sl[1][0][1])) and not it[2]
            rep.check("start", ok, name, name + " does not start with every entry of the container in order", name)
        for q in I.panics:
            if not q["taint"]:
                rep.bad("start", name + "/panic", name + " can panic: " + q["msg"])
    t = p.types[out_ty]
    if t["k"] != "adt" or "v" not in t:
        rep.undecided("methods", "iterator type of " + kind); return
    fields = [n for n, ft in t["v"][0]["f"] if p.types[ft].get("path") == "std::slice::Iter"]
    if len(fields) != 1:
        rep.undecided("methods", "the iterator of %s does not hold one slice iterator" % kind); return
    fld = fields[0]
    path = t["path"]
    ms = {}
    for it in p.items:
        if it["kind"] == "AssocFn" and it.get("itrait") and ("nondestructive::" + it.get("impl", "").lstrip("&")).split("<")[0] == path and it["path"] in p.fns:
            ms[it["path"].split("::")[-1]] = it["path"]
    rep.floor("anchors", "iterator methods of " + kind, len([m for m in ms if m in ("next", "next_back")]), 2)
    for m, key in sorted(ms.items()):
        check_method(rep, p, R, kind, fld, m, key)

def short(k):
    return k.replace("nondestructive::yaml::", "").replace("std::iter::", "")

def find_it(I, st, v):
    v = I.models.deref(st, v)
    if v[0] == "sym":
        v = I.expand(st, v)
    if v[0] == "obj" and v[1] == "it":
        return v
    if v[0] == "adt":
        for x in v[3]:
            r = find_it(I, st, x) if x[0] in ("adt", "obj", "sym") and x[0] != "sym" else None
            if r is not None:
                return r
    return None

def check_method(rep, p, R, kind, fld, m, key):
    byref = p.types[p.fns[key]["locals"][1]]["k"] == "ref"
    base = ("a0", "*", fld) if byref else ("a0", fld)
    name = short(key)
    if m not in ("next", "nth", "next_back", "nth_back", "size_hint", "len", "count", "last"):
        rep.undecided("methods", name + " is overridden; not covered"); return
    I, outs = R.run(key, views={base + ("0",): {kind + "Item"}, base: {kind + "Item"}})
    if I.failed:
        rep.undecided("methods", name + ": " + I.failed); return
    for q in I.panics:
        if not q["taint"]:
            rep.bad("methods", name + "/panic", name + " can panic on a well-formed document: " + q["msg"])
        else:
            rep.undecided("methods", name + " panic")
    if not outs:
        rep.undecided("methods", name + ": no outcome")
    for st, v in outs:
        if st.taint:
            rep.undecided("methods", name + ": " + ", ".join(sorted(st.taint))); continue
        n = I.length(st, base)
        if m in ("size_hint", "len", "count"):
            if m == "size_hint":
                v = I.models.deref(st, v)
                hi = lib.opt(I, st, v[1][1]) if v[0] == "tup" else "bad"
                ok = v[0] == "tup" and is_int(v[1][0]) and st.F.eq(v[1][0], n) and hi not in (None, "bad") and is_int(hi) and st.F.eq(hi, n)
            else:
                ok = is_int(v) and st.F.eq(v, n)
            rep.check("methods", ok, name + "/length", name + " does not report exactly the number of remaining entries", name)
            continue
        # what is left
        cur = I.read(st, ("P", ("a0", "*"), p.types[p.fns[key]["locals"][1]]["e"])) if byref else None
        it = find_it(I, st, lib.field(I, st, cur, fld)) if cur is not None else None
        k = C(0)
        if m in ("nth", "nth_back"):
            k = I.expand(st, ("sym", ("a1",), p.fns[key]["locals"][2]))
        want_hit = {"next": k, "nth": k, "next_back": addc(sub(n, k), -1), "nth_back": addc(sub(n, k), -1), "last": addc(n, -1)}[m]
        o = lib.opt(I, st, v)
        if o == "bad":
            rep.undecided("methods", name + ": result"); continue
        hit = lib.le(st, addc(k, 1), n)
        miss = lib.le(st, n, k)
        if o is None:
            ok = miss
            lib.verdict(rep, "methods", ok, name + "/none", name + " can yield nothing although enough entries remain", name + " none")
            if byref:
                left = remaining(I, st, it, base)
                ok = lib.le(st, left[1], left[0]) if left is not None else None
                lib.verdict(rep, "methods", ok, name + "/rest-none", name + " leaves entries behind after yielding nothing", name)
            continue
        if not hit:
            # not provable: either the method returns an entry it must not, or the facts are too weak
            lib.verdict(rep, "methods", hit, name + "/some", name + " can yield an entry although not enough remain", name); continue
        e = entry(I, st, o, kind)
        if e is None:
            rep.undecided("methods", name + ": entry"); continue
        ok = e != "mixed" and lib.eq(st, e, want_hit)
        lib.verdict(rep, "methods", ok, name + "/entry", name + " yields the wrong entry (or pairs a key with another entry's value)", name + " entry")
        if byref:
            left = remaining(I, st, it, base)
            if left is None:
                rep.undecided("methods", name + ": rest"); continue
            back = m.endswith("back")
            wl, wh = (C(0), want_hit) if back else (addc(want_hit, 1), n)
            ok = st.F.le(wh, wl) and st.F.le(left[1], left[0]) or lib.both(lib.eq(st, left[0], wl), lib.eq(st, left[1], wh))
            lib.verdict(rep, "methods", ok, name + "/rest", name + " leaves the wrong entries for the next step", name + " rest")

def remaining(I, st, it, base):
    """[i, j) of the initial remaining entries that is left."""
    if it is None or len(it[3][1]) != 1 or it[3][1][0][0] != "sl" or it[3][1][0][1] != base:
        if it is not None and not it[3][1]:
            return C(0), C(0)
        return None
    sl = it[3][1][0]
    return add(sl[2], it[4]), add(sl[2], it[5])

def entry(I, st, o, kind):
    """Index of the entry that a yielded item shows; 'mixed' if its parts disagree."""
    val, key = o, None
    if o[0] == "tup":
        if len(o[1]) != 2:
            return None
        key, val = o[1]
    val = I.models.deref(st, val)
    if val[0] == "sym": val = I.expand(st, val)
    idv = lib.field(I, st, val, "id") if val[0] == "adt" else None
    i = I.idof(st, idv) if idv is not None else None
    if i is None:
        return None
    nd = lib.node(I, i)
    if nd is None:
        return None
    if nd[0] != "value" or nd[2] is None or nd[2][0] != "item":
        return "mixed"
    k = nd[2][3]
    if kind == "Mapping":
        if key is None:
            return None
        owner = st_owner(I, i)
        t = I.models.as_text(st, key)
        if t is None:
            return None
        if not lib.whole(I, st, key, lambda b: b[0] == "E" and b[1] == owner and "key" in b and "id" in b):
            return "mixed"
    return k

def st_owner(I, i):
    return I.role(addc(i, -1))[2]
