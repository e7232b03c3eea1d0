"""C16: mapping keys."""
from .. import ir, lib
from ..dom import *
from ..report import Report
from . import c17

def run():
    rep = Report("C16", "other", "abstract interpretation of mapping lookups and inserts",
        "Every mapping method that takes a key is interpreted over a symbolic mapping of n entries with unknown keys. For each outcome the equalities known at the return decide whether the entry acted on is the "
        "first whose complete key content equals the complete argument; an insert either leaves the list as it is and overwrites the value of that entry, or, with every key known to differ, appends "
        "exactly one new entry with that key at the end.", ["the string store answers by content (C23)"])
    p = ir.load("all")
    R = lib.Runner(p)
    api = lib.api(p)
    fields = content_fields(p, R, api)
    n = ni = 0
    used = {}
    for ty, m, key in c17.methods(p):
        if not ty.startswith("Mapping") or p.fns[key]["n_args"] < 2:
            continue
        if m in ("get", "get_mut", "get_into_mut", "remove"):
            n += 1
            lookup(rep, p, R, ty, m, key, used)
        elif m.startswith("insert"):
            ni += 1
            insert(rep, p, R, ty, m, key, used)
    rep.floor("anchors", "key lookups", n, 4)
    rep.floor("anchors", "key inserts", ni, 16)
    if fields:
        for f, who in sorted(used.items()):
            rep.check("content", f in fields, "field/" + str(f), "%s compare the key's `%s`, not its content" % (", ".join(sorted(who)[:6]), f), "keys are compared by content")
    return rep

def content_fields(p, R, api):
    """Fields that hold the content of a string, as the iterators hand out keys."""
    out = set()
    for (ty, tr, m), key in api.items():
        if (ty, m) in (("Value", "as_bstr"), ("Value", "as_str")):
            I, outs = R.run(key, views=lib.self_views("String"))
            for st, v in outs:
                d = lib.describe(I, st, v)
                if d and d[0] == "text" and len(d[1][1]) == 1 and d[1][1][0][0] == "sub":
                    out.add(d[1][1][0][1][-1])
    return out

def outcomes(rep, R, name, key):
    I, outs = R.run(key, views=lib.self_views("Mapping"))
    if I.failed or not outs:
        rep.undecided("outcome", name + ": " + str(I.failed)); return
    for st, v in outs:
        if st.taint:
            rep.undecided("outcome", name + ": " + ", ".join(sorted(st.taint))); continue
        c = lib.Container(I, st, "Mapping")
        if not c.known:
            rep.undecided("outcome", name + ": self"); continue
        yield I, st, v, c

def lookup(rep, p, R, ty, m, key, used):
    name = ty + "::" + m
    for I, st, v, c in outcomes(rep, R, name, key):
        d = lib.describe(I, st, v)
        k = None
        if d is not None and d[0] == "view":
            k = c.place(d[2])
        elif m == "remove":
            l = c.after()
            if l not in (None, "bad"):
                k = c17.removed(c, st, l)
            elif l is None:
                d = ("none",)
        if d == ("none",) or d == ("bool", False):
            ok, f = c.no_match(C(0), c.n, "a1")
            lib.verdict(rep, "lookup", ok, name + "/absent", name + " gives up without having compared every key", name + " absent"); 
            if f: used.setdefault(f, set()).add(name)
            continue
        if k is None:
            rep.undecided("lookup", name + ": entry"); continue
        judge(rep, st, c, k, name, "lookup", used)

def judge(rep, st, c, k, name, rule, used):
    ok, f = c.match_at(k, "a1")
    if f: used.setdefault(f, set()).add(name)
    if ok is None and not any(True for _ in c.keybases("a1")):
        ok = None if st.F.byte or st.F.eqs else False
    lib.verdict(rep, rule, ok, name + "/match", name + " acts on an entry whose key need not be the given one", name + " match")
    ok, f = c.no_match(C(0), k, "a1")
    lib.verdict(rep, rule, ok, name + "/first", name + " need not act on the first entry with the key", name + " first")

def insert(rep, p, R, ty, m, key, used):
    name = ty + "::" + m
    for I, st, v, c in outcomes(rep, R, name, key):
        l = c.after()
        if l == "bad":
            rep.undecided("insert", name + ": list"); continue
        es = lib.entries(I, st)
        new = [e for e in es if e.new and not e.gone]
        if l is None:
            old = [e for e in es if not e.new and e.v is not None and not e.gone and e.raw is not None and e.same_raw() is not True]
            ks = [c.place(e.id) for e in old]
            if len(old) != 1 or ks[0] is None:
                if not old and not new:
                    rep.bad("insert", name + "/nothing", name + " can return without having stored anything")
                else:
                    lib.verdict(rep, "insert", None if any(lib.node(I, e.id) is None for e in old) else False, name + "/replace", name + " changes something other than the value of one entry", name)
                continue
            judge(rep, st, c, ks[0], name, "replace", used)
            returned(rep, I, st, v, old[0].id, name)
            continue
        els = [x for x in l[1] if x[0] == "el"]
        rest = ("list", tuple(x for x in l[1] if x[0] != "el"))
        ok = len(els) == 1 and l[1] and l[1][-1][0] == "el" and c.is_list(rest, [(C(0), c.n)])
        rep.check("append", ok, name + "/list", name + " does not append exactly one entry at the end", name + " list")
        if not ok:
            continue
        ok, f = c.no_match(C(0), c.n, "a1")
        if f: used.setdefault(f, set()).add(name)
        if ok is None and not any(True for _ in c.keybases("a1")) and not st.F.byte and not any(k[0] == "teq" for k in st.F.eqs):
            ok = False
        lib.verdict(rep, "append", ok, name + "/unique", name + " can append an entry for a key that the mapping has", name + " unique")
        iid = I.idof(st, els[0][1])
        e = next((x for x in new if iid is not None and st.F.eq(x.id, iid)), None)
        if e is None or e.kind() != "MappingItem":
            lib.verdict(rep, "append", None if e is None else False, name + "/item", name + " appends something that is not a new entry", name); continue
        ks = key_texts(I, st, e)
        whole = [bool(t is not None and lib.whole(I, st, t, lambda nm: nm[0] == "a1")) for t in ks]
        lib.verdict(rep, "append", all(whole) if ks else None, name + "/key", name + " stores another key than the one given", name + " key")
        vid = I.idof(st, e.f("value")) if e.f("value") is not None else None
        ve = next((x for x in new if vid is not None and st.F.eq(x.id, vid)), None)
        lib.verdict(rep, "append", None if vid is None else ve is not None, name + "/value", name + " appends an entry whose value is not new", name + " value")
        if vid is not None:
            returned(rep, I, st, v, vid, name)

def returned(rep, I, st, v, vid, name):
    d = lib.describe(I, st, v)
    if d is None:
        rep.undecided("returned", name)
    elif d[0] == "view":
        lib.verdict(rep, "returned", lib.eq(st, d[2], vid), name, name + " returns a view of something other than the value stored", name)
    elif d[0] == "id":
        lib.verdict(rep, "returned", lib.eq(st, d[1], vid), name, name + " returns the identifier of something other than the value stored", name)

def key_texts(I, st, e):
    k = e.f("key")
    if k is None or k[0] != "adt":
        return []
    out = []
    for (fn, ft), x in zip(I.p.types[k[1]]["v"][k[2]]["f"], k[3]):
        if I.p.types[ft].get("path", "").endswith("::StringId"):
            out.append(lib.text_of(I, st, x))
    return out
