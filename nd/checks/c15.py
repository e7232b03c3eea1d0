"""C15: links between nodes."""
from .. import ir, lib, tree
from ..dom import *
from ..report import Report
from . import c14

VALUES = {"Null", "Boolean", "Number", "String", "Mapping", "Sequence"}

def run():
    rep = Report("C15", "other", "ownership analysis of the node store by abstract interpretation",
        "Every edit operation is interpreted over a symbolic, well-formed document. For each outcome every entry created must be linked exactly once: an entry node in the list of its container with that container "
        "as parent, a value in its entry node with that node as parent; no created entry may be left unlinked and no released one linked. Overwritten content must be handed to the release of its own subtree, "
        "exactly the entries taken out of a list are released, and the recursive release itself is shown, per node kind, to release every entry below. Parents of existing entries do not change (C14).",
        ["operations start from a well-formed document (established by parsing, kept by every operation: induction)"])
    p = ir.load("all")
    for ty, m, name, I, st, v in c14.run_all(rep, p, "links"):
        if not m.startswith(c14.READONLY):
            links(rep, p, I, st, ty, m, name)
    rep.floor("anchors", "edit operations", rep.counts.get("edit operations", 0), 60)
    releases(rep, p)
    return rep

def links(rep, p, I, st, ty, m, name):
    es = lib.entries(I, st)
    kind = c14.VIEWS[ty]
    sid = lib.self_id(I, st)
    if sid is None:
        if es: rep.undecided("links", name + ": self")
        return
    c = lib.Container(I, st, kind) if kind else None
    live = [e for e in es if e.new and not e.gone]
    linked = {}         # entry -> number of links
    def find(idt):
        return next((e for e in live if idt is not None and st.F.eq(e.id, idt)), None)
    unsure = False
    # lists of containers written to, old and new
    for e in es:
        if e.gone or e.v is None or e.v[0] == "top" or e.raw is None:
            continue
        k = e.kind()
        if k in ("Mapping", "Sequence"):
            l = e.f("items")
            l = I.models.deref(st, l) if l is not None else None
            if l is None or l[0] not in ("list", "sym"):
                rep.undecided("links", name + ": list"); unsure = True; continue
            if l[0] == "list":
                for x in I.models.lnorm(st, l)[1]:
                    if x[0] == "seg":
                        rep.undecided("links", name + ": list"); unsure = True
                    if x[0] != "el":
                        continue
                    i = I.idof(st, x[1])
                    t = find(i)
                    if t is None:
                        # an element that is not new: it must be one of the initial ones
                        nd = lib.node(I, i) if i is not None else None
                        ok = nd is not None and nd[0] == "item" and nd[2] == ("E", e.idx, "raw", k, "0", "items")
                        lib.verdict(rep, "links", True if ok else None if nd is None else False, name + "/foreign", name + " puts a node into the list that does not belong there", name); continue
                    linked[t.cell] = linked.get(t.cell, 0) + 1
                    rep.check("kinds", t.kind() == k + "Item", name + "/" + k, "%s puts a %s into the list of a %s" % (name, t.kind(), k), name + " entry kind")
                    parent(rep, I, st, t, e.id, name, "entry")
        if k in ("MappingItem", "SequenceItem"):
            i = I.idof(st, e.f("value")) if e.f("value") is not None else None
            t = find(i)
            if t is not None:
                linked[t.cell] = linked.get(t.cell, 0) + 1
                rep.check("kinds", t.kind() in VALUES, name + "/value", "%s uses a %s as the value of an entry" % (name, t.kind()), name + " value kind")
                parent(rep, I, st, t, e.id, name, "value")
            elif i is None:
                rep.undecided("links", name + ": value"); unsure = True
            elif e.new:
                nd = lib.node(I, i)
                lib.verdict(rep, "links", None if nd is None else False, name + "/shared", name + " makes an entry share an existing value", name)
    for e in live:
        n = linked.get(e.cell, 0)
        if n == 0 and unsure: continue
        rep.check("links", n == 1, name + ("/leak" if n == 0 else "/twice"), "%s creates a node that is linked %s" % (name, "nowhere" if n == 0 else "%d times" % n), name + " linked once")
    # what was overwritten or taken out must be released, and nothing else
    dropped_raw = [x[1] for x in st.ev if x[0] == "dropraw" and not (x[1][0] == "adt" and I.variant(x[1]) in ("Null", "Boolean", "Number", "String"))]
    used = 0
    for e in es:
        if e.new or e.gone or e.v is None or e.v[0] == "top" or e.raw is None:
            continue
        sr = e.same_raw()
        me = st.F.eq(e.id, sid)
        if sr is True or (me and kind is not None):
            continue
        if sr is None and e.kind() is None:
            rep.undecided("release", name); continue
        init = e.initial("raw")
        hit = [x for x in dropped_raw if x == init or lib.same(I, st, x, init) is True]
        if hit:
            rep.ok("release", name + " overwritten content"); used += 1
        else:
            var = I.vname(st, e.idx) if False else initial_kind(I, st, e)
            if var in ("Null", "Boolean", "Number", "String"):
                rep.ok("release", name + " had nothing below"); continue
            rep.bad("release", name + "/leak", name + " overwrites content without releasing the nodes below it")
        if I.role(e.idx) is not None:
            isitem = lib.node(I, e.id)
            if isitem and isitem[0] == "item":
                rep.bad("kinds", name + "/item", name + " overwrites an entry node as if it were a value")
            else:
                rep.check("kinds", e.kind() in VALUES, name + "/kind", "%s turns a value into a %s" % (name, e.kind()), name + " value stays a value")
    if len(dropped_raw) > used:
        rep.bad("release", name + "/wrong", name + " releases the nodes below content that is still in place")
    # lists
    drops = I.drops(st)
    evd = [x for x in st.ev if x[0] == "drop"]
    if c is not None and c.known:
        l = c.after()
        if l == "bad" or drops[0] != "list":
            rep.undecided("release", name + ": list"); return
        gone = complement(c, st, l)
        if gone is None:
            rep.undecided("release", name + ": taken out"); return
        got = [x for x in drops[1]]
        want = [r for r in gone if not st.F.eq(r[0], r[1])]
        ok = len(got) == len(want) and all(x[0] == "sl" and x[1] == c.name and st.F.eq(x[2], r[0]) and st.F.eq(x[3], r[1]) for x, r in zip(got, want))
        if not ok and any(x[0] != "sl" for x in got):
            ok = None
        lib.verdict(rep, "release", ok, name + "/list", name + " does not release exactly the entries it takes out of the list", name + " list")
    elif drops[0] != "list" or drops[1]:
        rep.bad("release", name + "/other", name + " releases entries that are still listed")

def initial_kind(I, st, e):
    i = st.F.var.get(("E", e.idx, "raw"))
    return None if i is None else I.p.types[I._raw_ty()]["v"][i]["name"]

def complement(c, st, l):
    """Ranges of the initial list that are not in l, in order; None if l is not made of such ranges."""
    if l is None:
        return []
    out, at = [], C(0)
    for p in l[1]:
        if p[0] == "el":
            continue
        if p[0] != "sl" or p[1] != c.name or not st.F.le(at, p[2]):
            return None
        out.append((at, p[2])); at = p[3]
    if not st.F.le(at, c.n):
        return None
    out.append((at, c.n))
    return out

def parent(rep, I, st, e, idt, name, what):
    v = e.f("layout", "parent")
    o = lib.opt(I, st, v) if v is not None else "bad"
    if o == "bad":
        rep.undecided("parent", name); return
    if o is None:
        rep.bad("parent", name + "/" + what, "%s creates %s without a parent" % (name, "an entry node" if what == "entry" else "a value")); return
    i = I.idof(st, o)
    lib.verdict(rep, "parent", lib.eq(st, i, idt) if i is not None else None, name + "/" + what, "%s gives a new %s the wrong parent" % (name, "entry node" if what == "entry" else "value"), name + " " + what)

def releases(rep, p):
    """The recursive release, one level at a time."""
    R = lib.Runner(p)
    fns = tree.drop_fns(p)
    if not fns:
        rep.undecided("recursive", "no recursive release found"); return
    for k in fns:
        name = "::".join(k.split("::")[-2:])
        f = p.fns[k]
        I, outs = R.run(k, views={("a1", "0"): {"Null", "Boolean", "Number", "String", "Mapping", "Sequence", "MappingItem", "SequenceItem"}})
        if I.failed or not outs:
            rep.undecided("recursive", name + ": " + str(I.failed)); continue
        for q in I.panics:
            if q["taint"]: rep.undecided("recursive", name + ": panic")
            elif not any(x in q["msg"] for x in ("expected", "unwrap", "invalid key")): rep.bad("recursive", name + "/panic", name + " can panic: " + q["msg"])
        byid = p.types[f["locals"][2]].get("path", "").endswith("::Id")
        for st, v in outs:
            if st.taint:
                rep.undecided("recursive", name + ": " + ", ".join(sorted(st.taint))); continue
            raws = [x[1] for x in st.ev if x[0] == "dropraw"]
            ids = [x[1] for x in st.ev if x[0] == "drop"]
            drops = I.drops(st)
            gone = [e for e in lib.entries(I, st) if e.gone]
            if byid:
                s = next((s for s, o in I.origin.items() if o == ("a1", "0")), None)
                own = [e for e in gone if s is not None and st.F.eq(e.id, S(s))]
                if not own:
                    # nothing there
                    rep.check("recursive", not raws and not ids and s is None, name + "/entry", name + " does not release the entry it is given", name); continue
                base, kind = ("E", own[0].idx, "raw"), initial_kind(I, st, own[0])
                whole_raw = any(x == ("sym", base, x[2]) for x in raws if x[0] == "sym") or any(lib.same(I, st, x, own[0].initial("raw")) is True for x in raws)
                gone = [e for e in gone if e is not own[0]]
                if whole_raw:
                    rep.check("recursive", len(raws) == 1 and not gone, name + "/extra", name + " releases more than what it is given", name); continue
            else:
                base = ("a1",)
                i = st.F.var.get(base)
                kind = None if i is None else p.types[I._raw_ty()]["v"][i]["name"]
            if kind is None:
                rep.bad("recursive", name + "/blind", name + " does not look at the kind of the node it releases"); continue
            if kind in ("Mapping", "Sequence"):
                n = I.length(st, base + (kind, "0", "items"))
                ok = drops[0] == "list" and (len(drops[1]) == 1 and drops[1][0][0] == "sl" and drops[1][0][1] == base + (kind, "0", "items")
                                             and st.F.eq(drops[1][0][2], C(0)) and st.F.eq(drops[1][0][3], n) or not drops[1] and st.F.eq(n, C(0)))
                lib.verdict(rep, "recursive", ok if drops[0] == "list" else None, name + "/" + kind, "%s does not release every entry of a %s" % (name, kind), name + " " + kind)
            elif kind in ("MappingItem", "SequenceItem"):
                vn = base + (kind, "0", "value", "0")
                vs = next((s for s, o in I.origin.items() if o == vn), None)
                mine = [e for e in gone if vs is not None and st.F.eq(e.id, S(vs))]
                below = vs is not None and any(st.F.eq(x, S(vs)) for x in ids) or any(x == ("sym", ("E", S(vs, -1), "raw"), x[2]) for x in raws if x[0] == "sym" and vs is not None) or \
                    any(mine and lib.same(I, st, x, mine[0].initial("raw")) is True for x in raws)
                if mine and not below and initial_kind(I, st, mine[0]) in ("Null", "Boolean", "Number", "String"):
                    below = True
                rep.check("recursive", bool(mine) and below, name + "/" + kind, "%s does not release the value of a %s and what is below it" % (name, kind), name + " " + kind)
            else:
                rep.check("recursive", not gone and not raws and not ids and not (drops[0] == "list" and drops[1]), name + "/" + kind, "%s releases nodes for a %s" % (name, kind), name + " " + kind)
