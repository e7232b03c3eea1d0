"""C23: stored text is immutable and addressed by its content."""
import re
from .. import ir, lib
from ..dom import *
from ..report import Report

READ = {"get", "get_key_value", "contains_key", "len", "is_empty", "iter", "keys", "values", "range", "first_key_value", "last_key_value", "entry", "key", "clone", "default", "new", "eq", "ne", "cmp", "partial_cmp", "fmt", "hash", "serialize", "serialize_field",
        "with_capacity", "reserve", "shrink_to_fit", "capacity", "hasher", "as_ref", "borrow", "deref", "is_some", "is_none", "branch", "from_residual", "from_output", "as_ref", "drop_in_place"}
STORE = {"insert", "or_insert", "or_insert_with", "or_insert_with_key", "insert_entry", "try_insert"}

def derived(p, f):
    return "::_::<impl" in f["path"] or bool(p.item.get(f["key"], {}).get("derived"))

def run():
    rep = Report("C23", "other", "effect query over the compiler's MIR and abstract interpretation of the functions that store text",
        "Every use of the map from text identities to texts, anywhere in the crate, is classified by the operation it is given to; only operations that read or add are allowed, and none may hand out the stored text for writing. Every function that adds to it is interpreted on any "
        "text: what is stored must be the whole text the identity was computed from, and every identity it returns must be stored by then. Identities are made nowhere else, and no function sees two documents.",
        ["the 128-bit hash of texts has no collisions among the texts of one document", "a snapshot that is deserialized was serialized by this crate"])
    p = ir.load("all")
    sid = {i for i, t in enumerate(p.types) if t["k"] == "adt" and t.get("path", "").endswith("::StringId") and t.get("local")}
    rep.floor("anchors", "types of text identities", len(sid), 1)
    maps = {i for i, t in enumerate(p.types) if t["k"] == "adt" and not t.get("local") and t.get("args") and t["args"][0] in sid and "Map" in t["path"] and len(t["args"]) > 1}
    if not maps:
        rep.undecided("effects", "no map from identities to texts"); return rep
    about = {i for i, t in enumerate(p.types) if t["k"] == "adt" and not t.get("local") and any(a in sid for a in t.get("args", ())) and re.search("Map|_map|Entry", t["path"])}
    stores, makes = set(), set()
    for k, f in sorted(p.fns.items()):
        if not f.get("local"):
            continue
        effects(rep, p, k, f, maps, about, sid, stores, makes)
    rep.counts["functions that store text"] = len({p.fns[k]["path"] for k in stores})
    if not stores:
        rep.undecided("stored", "no function stores text")
    p.scc_cut()
    for k in sorted(stores):
        storing(rep, p, k)
    # identities are made where text is stored, or by helpers that only such functions call
    ok = set(stores)
    todo = sorted(makes - ok)
    for _ in range(4):
        for k in list(todo):
            cs = [c for c in p.graph.predecessors(k) if c != k and p.fns[c].get("local")]
            if cs and all(c in ok for c in cs) and not public(p, k):
                ok.add(k); todo.remove(k)
    for k in sorted(makes):
        path = p.fns[k]["path"]
        rep.check("identities", k in ok, path, path + " makes the identity of a text without storing the text", path + " makes identities of texts it stores")
    two(rep, p)
    return rep

def public(p, k):
    it = p.item.get(k) or {}
    return it.get("pub") is True

def places(x):
    """All places in a MIR fragment."""
    if type(x) is list:
        if len(x) == 2 and type(x[0]) is int and type(x[1]) is list and all(type(q) is list and q and type(q[0]) is str for q in x[1]):
            yield x
        for y in x:
            yield from places(y)

def effects(rep, p, k, f, maps, about, sid, stores, makes):
    path = f["path"]
    der = derived(p, f)
    hot = set()         # locals that are mutable references to a map
    for i, t in enumerate(f["locals"]):
        if p.types[t]["k"] == "ref" and p.types[t].get("mut") and p.types[t]["e"] in about:
            hot.add(i)
    for b in f["bbs"]:
        if b is None:
            continue
        for s in b[0]:
            if s[0] != "=":
                continue
            pr = s[1][1]
            if pr and pr[-1][0] == "f" and pr[-1][2] in maps:
                if der:
                    continue
                rep.bad("effects", path + " replaces", path + " replaces the store of texts")
            if s[2][0] == "agg" and s[2][2] in sid and not der:
                makes.add(k)
            if s[2][0] == "use" and s[2][1][0] == "m" and s[2][1][1][1] and s[2][1][1][1][-1][0] == "f" and s[2][1][1][1][-1][2] in maps and not der:
                rep.bad("effects", path + " moves", path + " takes the store of texts out of its place")
            if s[2][0] == "cast" and any(pl[0] in hot for pl in places(s[2])):
                rep.undecided("effects", path + ": a reference to the store of texts is converted")
        t = b[1]
        if t[0] == "call":
            ats = t[6]
            hit = [a for a in ats if p.peel(a) in about]
            if not hit:
                continue
            name = re.sub(r"<[^<>]*>$", "", t[1].get("path") or "?").rstrip(":").split("::")[-1]
            rep.count("uses of the store of texts")
            mut = [a for a in hit if p.types[a]["k"] == "ref" and p.types[a].get("mut") or p.types[a]["k"] != "ref"]
            loc = t[1].get("local")
            if loc and not der and mut:
                # a function of the crate that is handed the map is looked at by itself
                rep.ok("effects", "%s hands the store to %s" % (path, name)); continue
            if not mut or name in READ or der:
                rep.ok("effects", "%s: %s" % (path, name))
            elif name in STORE:
                stores.add(k)
                rep.ok("effects", "%s: %s" % (path, name))
                dead(rep, p, f, path, t, name)
            elif t[1]["kind"] in ("shim", "intrinsic"):
                rep.ok("effects", "%s: %s" % (path, name))
            else:
                rep.bad("effects", "%s %s" % (path, name), "%s calls %s on the store of texts, which may remove or change text" % (path, name))

def dead(rep, p, f, path, t, name):
    """What storing returns must not be used to change the text."""
    d = t[3]
    if d is None:
        return
    ty = p.types[f["locals"][d[0]]]
    if ty["k"] != "ref" or not ty.get("mut"):
        return
    used = 0
    for b in f["bbs"]:
        if b is None:
            continue
        for s in b[0]:
            if s[0] == "=" and any(pl[0] == d[0] and (s[1] is not pl) for pl in places(s[2])):
                used += 1
            elif s[0] == "=" and s[1][0] == d[0] and s[1][1]:
                rep.bad("effects", path + " writes", path + " writes to text after storing it")
        if b[1][0] == "call" and b[1] is not t and any(pl[0] == d[0] for pl in places(b[1][2])):
            used += 1
    if used:
        rep.undecided("effects", path + ": the reference that %s returns is used" % name)

def storing(rep, p, k):
    """Interpret a function that stores text."""
    path = p.fns[k]["path"]
    R = lib.Runner(p)
    ev = []
    def setup(I, st, args):
        I.on_store = lambda s, key, val, x: ev.append((key, val, bool(s.taint)))
    I, outs = R.run(k, setup=setup)
    if I.failed or not outs:
        rep.undecided("stored", "%s: %s" % (path, I.failed)); return
    rep.count("texts stored", len(ev))
    for key, val, taint in ev:
        ok = None if taint or val is None else key == val
        lib.verdict(rep, "stored", ok, path, "%s stores another text than the one its identity is computed from" % path, path + " stores the text the identity is computed from")
    whole = text_args(p, k)
    for st, v in outs:
        rep.count("outcomes analysed")
        ids = list(hashes(v))
        if st.taint:
            rep.undecided("returned", "%s: %s" % (path, ", ".join(sorted(st.taint)))); continue
        for t in ids:
            rep.check("returned", ("stored", t) in st.F.eqs, path, path + " may return the identity of a text that is not stored", path + " returns identities of stored texts")
            if len(whole) == 1 and len(ids) == 1:
                lib.verdict(rep, "returned", is_whole(I, st, t), path + " content", path + " computes the identity from a part of the text only", path + " computes identities from whole texts")
        if not ids and v[0] == "adt" and p.types[v[1]]["path"].endswith("::StringId"):
            rep.undecided("returned", path + ": identity of unknown text")

def text_args(p, k):
    f = p.fns[k]
    return [i for i in range(f["n_args"]) if p.types[p.peel(f["locals"][i + 1])]["k"] in ("str", "slice", "array") or p.types[p.peel(f["locals"][i + 1])].get("path", "").split("::")[-1] in ("String", "Vec", "BStr", "BString", "Cow")]

def hashes(v):
    if type(v) is tuple and v:
        if v[0] == "hash" and len(v) == 2:
            yield v[1]
        elif v[0] in ("adt", "tup"):
            for x in v[-1]:
                yield from hashes(x)

def is_whole(I, st, t):
    """Is it one complete text?"""
    if t[0] != "bytes":
        return None
    ps = t[1]
    if len(ps) != 1 or ps[0][0] != "sub":
        return None if any(x[0] in ("any", "top") for x in ps) or ps else None
    x = ps[0]
    if not st.F.eq(x[2], C(0)):
        return False
    return True if st.F.eq(x[3], I.length(st, x[1])) else None

def two(rep, p):
    """No function sees the stores of two documents."""
    datas = {i for i, t in enumerate(p.types) if t["k"] == "adt" and t.get("path", "").endswith("::Data") and t.get("local")}
    memo = {}
    def reach(ti, depth=0):
        if ti in memo:
            return memo[ti]
        memo[ti] = False
        t = p.types[ti]
        r = ti in datas
        if not r and t["k"] == "ref":
            r = reach(t["e"], depth + 1)
        elif not r and t["k"] == "adt" and t.get("local") and "v" in t:
            r = any(reach(ft, depth + 1) for v in t["v"] for _, ft in v["f"])
        memo[ti] = r
        return r
    n = 0
    for k, f in sorted(p.fns.items()):
        if not f.get("local") or f.get("closure") or derived(p, f):
            continue
        n += 1
        ds = [i for i in range(f["n_args"]) if reach(f["locals"][i + 1])]
        mut = [i for i in ds if p.types[f["locals"][i + 1]]["k"] != "ref" or p.types[f["locals"][i + 1]].get("mut")]
        if len(ds) > 1:
            # a document and a view of another one; only an identity that crosses over is a problem
            rep.undecided("documents", f["path"] + " is given two documents")
        else:
            rep.ok("documents")
    rep.counts["functions looked at for two documents"] = n
