"""C14: an edit changes only the node it addresses."""
from .. import ir, lib
from ..dom import *
from ..report import Report

VIEWS = {"ValueMut": None, "MappingMut": "Mapping", "SequenceMut": "Sequence"}

def mutators(p):
    for (ty, tr, m), key in sorted(lib.api(p).items(), key=str):
        if tr is None and ty in VIEWS and p.item.get(key, {}).get("pub", True):
            yield ty, m, key

def readers(p):
    for (ty, tr, m), key in sorted(lib.api(p).items(), key=str):
        if tr is None and ty in ("Value", "Mapping", "Sequence") and p.item.get(key, {}).get("pub", True):
            yield ty, m, key

READONLY = ("as_", "into_", "get", "id", "first", "last", "len", "is_empty")

def run_all(rep, p, rule):
    """Outcomes of every public edit operation."""
    R = lib.Runner(p)
    for ty, m, key in mutators(p):
        name = ty + "::" + m
        rep.count("edit operations")
        I, outs = R.run(key, views=lib.self_views(VIEWS[ty]))
        if I.failed or not outs:
            rep.undecided(rule, name + ": " + str(I.failed)); continue
        for st, v in outs:
            rep.count("outcomes analysed")
            if st.taint:
                rep.undecided(rule, name + ": " + ", ".join(sorted(st.taint))); continue
            yield ty, m, name, I, st, v

def run():
    rep = Report("C14", "other", "frame analysis of edit operations by abstract interpretation",
        "Every public operation of the mutable views is interpreted over a symbolic document. For each outcome all entries of the store that were written to are listed and compared field by field with their initial "
        "content: only the addressed value's content (setters), the addressed container's list of entries (push, insert, remove, clear) or the matching entry's value content (insert over an existing key) may differ; "
        "prefix and parent of every existing entry, all other entries, and the document's root and suffix may not. Entries that are released must lie below the addressed node. Read-only operations may not write at all.", [])
    p = ir.load("all")
    n = 0
    for ty, m, name, I, st, v in run_all(rep, p, "frame"):
        frame(rep, I, st, ty, m, name)
    rep.floor("anchors", "edit operations", rep.counts.get("edit operations", 0), 60)
    # read-only operations
    R = lib.Runner(p)
    for ty, m, key in readers(p):
        name = ty + "::" + m
        I, outs = R.run(key, views=lib.self_views(None if ty == "Value" else ty))
        if I.failed or not outs:
            rep.undecided("readonly", name + ": " + str(I.failed)); continue
        for st, v in outs:
            w = lib.changed(I, st)
            if w and st.taint: rep.undecided("readonly", name)
            else: rep.check("readonly", not w, name, name + " writes to the document", name)
    return rep

def describe_cell(I, c):
    if c[0] == "P":
        return "the document itself (%s)" % ".".join(str(x) for x in c[1] if type(x) is str)
    return None

def frame(rep, I, st, ty, m, name):
    for c in lib.changed(I, st):
        if c[0] == "P":
            rep.bad("frame", name + "/document", name + " writes to " + describe_cell(I, c))
    es = lib.entries(I, st)
    if m.startswith(READONLY):
        rep.check("readonly", not es, name, name + " writes to the document", name); return
    sid = lib.self_id(I, st)
    kind = VIEWS[ty]
    touched = 0
    for e in es:
        if e.new:
            continue
        me = sid is not None and st.F.eq(e.id, sid)
        if e.v is None or e.v[0] == "top":
            if not me and dropped(I, st, e, sid):
                rep.ok("frame", name + " released"); continue
            rep.undecided("frame", name + ": entry " + str(lib.node(I, e.id))[:60]); continue
        if e.gone:
            if me:
                rep.bad("frame", name + "/self", name + " releases the very node it is given"); continue
            rep.check("frame", below(I, e, sid), name + "/released", name + " releases a node that is not below the one it is given", name + " released")
            continue
        lay = e.same_layout()
        if lay is not True and me and m.startswith("make_") and e.same_raw() is not True:
            # a value that becomes a container may move to a line of its own
            lay = same_parent(I, st, e)
        lib.verdict(rep, "layout", lay, name + "/" + ("self" if me else "other"), name + " changes the prefix or the parent of " + ("the node it is given" if me else "another node"), name)
        sr = e.same_raw()
        if sr is True:
            rep.ok("frame", name); continue
        if me and ty == "ValueMut":
            rep.ok("frame", name + " own content"); touched += 1; continue
        if me:
            # the addressed container: only its list
            if sr is None and e.kind() is None:
                rep.undecided("frame", name + ": self"); continue
            rep.check("frame", e.kind() == kind, name + "/kind", name + " turns the container into something else", name + " kind")
            if e.kind() == kind:
                only_items(rep, I, st, e, kind, name)
            touched += 1; continue
        c = lib.Container(I, st, kind) if kind else None
        k = c.place(e.id) if c is not None and c.known else None
        if k is not None and m.startswith("insert"):
            rep.ok("frame", name + " value of the existing entry"); touched += 1; continue
        nd = lib.node(I, e.id)
        lib.verdict(rep, "frame", None if sr is None or nd is None else False, name + "/other", "%s changes the content of another node (%s)" % (name, nd[0] if nd else "?"), name)
    rep.check("frame", touched <= 1, name + "/several", name + " changes the content of several nodes", name + " one node")

def same_parent(I, st, e):
    t = I.entry_ty()
    lt = [x[1] for x in I.p.types[t]["v"][0]["f"] if x[0] == "layout"][0]
    pt = [x[1] for x in I.p.types[lt]["v"][0]["f"] if x[0] == "parent"]
    a = e.f("layout", "parent")
    if not pt or a is None:
        return None
    return lib.same(I, st, a, I.expand(st, ("sym", ("E", e.idx, "layout", "parent"), pt[0])))

def only_items(rep, I, st, e, kind, name):
    init = e.initial("raw")
    new = I.models.deref(st, e.raw[3][0])
    vi = e.raw[2]
    ti = I.p.types[e.raw[1]]["v"][vi]["f"][0][1]
    for fn, ft in I.p.types[ti]["v"][0]["f"]:
        if fn == "items":
            continue
        a = I._field(st, new, fn) if new[0] == "adt" else None
        b = I.expand(st, ("sym", ("E", e.idx, "raw", kind, "0", fn), ft))
        lib.verdict(rep, "frame", lib.same(I, st, a, b) if a is not None else None, name + "/" + fn, "%s changes the container's %s" % (name, fn), name + " " + fn)

def below(I, e, sid):
    """Is the entry listed by, or below, the addressed node?"""
    if sid is None:
        return False
    t = e.id
    for _ in range(6):
        nd = lib.node(I, t)
        if nd is None:
            return False
        if nd[0] == "value":
            nd = nd[2]
            if nd is None or nd[0] != "item":
                return False
        if nd[0] == "item":
            o = nd[2]
            if type(o) is tuple and o[0] == "E":
                t = addc(o[1], 1)
                if t == sid:
                    return True
                continue
            return False
        return False
    return False

def dropped(I, st, e, sid):
    return below(I, e, sid)
