"""C24: appended entries keep the layout of their container."""
import re
from .. import ir, lib
from ..dom import *
from ..report import Report
from . import c14

BLANK = rs(9, 10, 13, 32)
INLINE = ((9, 9), (32, 32))

def run():
    rep = Report("C24", "other", "abstract interpretation of push and insert with text facts",
        "Every push and insert method is interpreted over a symbolic container of any kind, column and number of entries, with any key, value and separator. In each outcome that creates an entry the text stored in "
        "front of the entry must be one line break followed by exactly as many spaces as the column recorded in the container when the container is a block container known to have entries, and must contain no line "
        "break when it is known to be empty; where an outcome knows neither, both are demanded. The text stored in front of the value must be blank and not empty for the automatic separator, and the complete "
        "given text for a custom one.", ["the column recorded in a container is the column of its entries (kept by parsing and by make_mapping and make_sequence)"])
    p = ir.load("all")
    R = lib.Runner(p, merge=4000)
    n = 0
    for ty, m, key in c14.mutators(p):
        if not re.match(r"^(push|insert)(_|$)", m):
            continue
        n += 1
        name = ty + "::" + m
        I, outs = R.run(key, views=lib.self_views(c14.VIEWS[ty]))
        if I.failed or not outs:
            rep.undecided("entry", name + ": " + str(I.failed)); continue
        for st, v in outs:
            rep.count("outcomes analysed")
            if st.taint:
                rep.undecided("entry", name + ": " + ", ".join(sorted(st.taint))); continue
            layout(rep, p, I, st, c14.VIEWS[ty], name, p.fns[key])
    rep.floor("anchors", "appending operations", n, 28)
    n = 0
    for (ty, tr, m), key in sorted(lib.api(p).items(), key=str):
        if tr is None and ty == "ValueMut" and re.match(r"^make_", m):
            n += 1
            name = ty + "::" + m
            I, outs = R.run(key, views=lib.self_views(None))
            if I.failed or not outs:
                rep.undecided("column", name + ": " + str(I.failed)); continue
            for st, v in outs:
                if st.taint:
                    rep.undecided("column", name + ": " + ", ".join(sorted(st.taint))); continue
                column(rep, p, I, st, name)
    rep.floor("anchors", "container constructors", n, 2)
    return rep

def mask(I, st, ps):
    """Bytes that can occur in these pieces; None if unknown."""
    m = ()
    for x in ps:
        if x[0] == "lit":
            m = rs_union(m, rs(*set(x[1])))
        elif x[0] == "rep" and is_int(x[1]):
            m = rs_union(m, st.F.get_mask(x[1]))
        elif x[0] == "byte":
            m = rs_union(m, st.F.get_mask(x[1]))
        elif x[0] == "sub":
            if not (len(x) == 4 and is_int(x[2]) and is_int(x[3])):
                return None
            c = st.F.cover(x[1], x[2], x[3])
            if c is None:
                return None
            m = rs_union(m, c)
        elif x[0] == "alt" and all(type(a) is tuple for a in x[1]):
            for a in x[1]:
                b = mask(I, st, a[1] if a[:1] == ("bytes",) else a) if all(type(y) is tuple for y in (a[1] if a[:1] == ("bytes",) else a)) else None
                if b is None:
                    return None
                m = rs_union(m, b)
        else:
            return None
    return m

def unknown(ps):
    return any(x[0] not in ("lit", "rep", "byte", "sub") for x in ps)

def line_and_column(I, st, ps, col):
    """Is the text one line break followed by `col` spaces?"""
    if not ps:
        return False
    if unknown(ps):
        return None
    first, n = None, C(0)
    for i, x in enumerate(ps):
        if x[0] == "sub":
            if not i and len(ps) == 1 and x[1][:1] == ("E",) and st.F.cover(x[1], x[2], x[3]) is None:
                return False  # the text stored with another node, with nothing known about it
            return None if i else False if st.F.cover(x[1], x[2], x[3]) is not None and not rs_has(st.F.cover(x[1], x[2], x[3]), 10) else None
        b = x[1] if x[0] == "lit" else None
        if x[0] == "lit":
            if i == 0:
                if b[:1] != b"\n":
                    return False
                b = b[1:]
            if b.strip(b" "):
                return False
            n = addc(n, len(b))
        else:
            m = st.F.get_mask(x[1])
            if i == 0 or not rs_has(m, 32):
                return False if i or not rs_has(m, 10) else None
            if rs_size(m) != 1:
                return None
            n = add(n, x[2] if x[0] == "rep" else C(1))
    r = lib.eq(st, n, col)
    return r if r is not None or syms_of(sub(n, col), set()) - RIGID else False

def layout(rep, p, I, st, kind, name, f):
    c = lib.Container(I, st, kind)
    if not c.known:
        rep.undecided("entry", name + ": container"); return
    es = [e for e in lib.entries(I, st) if e.new and not e.gone and e.v is not None and e.v[0] == "adt"]
    items = [e for e in es if e.kind() == kind + "Item"]
    if not items:
        if es:
            rep.undecided("entry", name + ": no entry node")
        return
    if len(items) > 1:
        rep.undecided("entry", name + ": several entries"); return
    it = items[0]
    t = lib.text_of(I, st, it.f("layout", "prefix"))
    ps = lib.norm_text(I, st, t) if t is not None else None
    base = ("E", c.idx, "raw", kind, "0")
    k = kind_of(p, st, base + ("kind",), kind)
    col = I.expand(st, ("sym", base + ("indent",), p.find_ty("usize")))
    some, none = lib.le(st, C(1), c.n), lib.eq(st, c.n, C(0))
    if ps is None:
        rep.undecided("entry", name + ": text")
    elif k != "Inline":
        if none is not True:
            lib.verdict(rep, "entry", line_and_column(I, st, ps, col), name + ("/own-line" if some is True else "/blind"),
                name + " does not start an appended entry on its own line in the container's column", name + " on its own line")
        if some is not True:
            m = mask(I, st, ps)
            ok = None if m is None else not rs_has(m, 10)
            if ok is False and not any(x[0] == "lit" and b"\n" in x[1] for x in ps):
                ok = None
            lib.verdict(rep, "first", ok, name + ("/line" if none is True else "/blind"), name + " adds a line break in front of the first entry of an empty container", name + " first entry")
    else:
        rep.ok("inline", name)
    # the value
    i = I.idof(st, it.f("value")) if it.f("value") is not None else None
    v = next((e for e in es if i is not None and st.F.eq(e.id, i)), None)
    t = lib.text_of(I, st, v.f("layout", "prefix")) if v is not None else None
    if t is None:
        rep.undecided("separator", name + ": text"); return
    ps = lib.norm_text(I, st, t)
    sep = [j for j in range(f["n_args"]) if p.types[f["locals"][j + 1]].get("path", "").endswith("::Separator")]
    custom = None
    if sep:
        nm = ("a%d" % sep[0],)
        j = st.F.var.get(nm)
        if j is None:
            rep.bad("separator", name + "/blind", name + " does not look at the separator it is given"); return
        w = p.types[f["locals"][sep[0] + 1]]["v"][j]["name"]
        custom = w == "Custom"
    if custom:
        lib.verdict(rep, "separator", True if lib.whole(I, st, t, lambda x: x[:1] == nm) else None if unknown(ps) else False, name + "/custom", name + " does not use exactly the separator it is given", name + " custom")
        return
    m = mask(I, st, ps)
    ok = None
    if m is not None:
        ok = True if rs_subset(m, BLANK) else False if any(x[0] == "lit" and not rs_subset(rs(*set(x[1])), BLANK) for x in ps) else None
    if ok is None and len(ps) == 1 and ps[0][0] == "sub" and ps[0][1][:1] == ("E",):
        # the text in front of another node, with nothing known about it
        ok = False
    lib.verdict(rep, "separator", ok, name + "/blank", name + " puts text that may not be blank between the key or dash and the value", name + " blank")
    if k == "Inline":
        return
    n = C(0)
    for x in ps:
        l = plen(x)
        n = None if n is None or l is None else add(n, l)
    ok = None if n is None else True if lib.le(st, C(1), n) else False if not unknown(ps) else None
    lib.verdict(rep, "separator", ok, name + "/gap", name + " may leave no space between the dash or key and the value", name + " gap")
    # on the same line, or further to the right on another one
    if m is not None and rs_has(m, 10):
        if all(x[0] in ("lit", "rep") for x in ps):
            deeper(rep, I, st, ps, col, name)
        else:
            rep.bad("separator", name + "/column", name + " may put the value on a line of its own without regard to the container's column")
    elif m is not None:
        rep.ok("separator", name + " same line")

def deeper(rep, I, st, ps, col, name):
    n = C(0)
    for x in ps:
        if x[0] == "lit":
            j = x[1].rfind(b"\n")
            n = C(len(x[1]) - j - 1) if j >= 0 else addc(n, len(x[1]))
        else:
            n = add(n, x[2])
    lib.verdict(rep, "separator", lib.le(st, addc(col, 1), n), name + "/column", name + " puts the value on a line of its own that is not indented below the container", name + " deeper")

def kind_of(p, st, nm, kind):
    j = st.F.var.get(nm)
    if j is None:
        return None
    for t in p.types:
        if t.get("path", "").endswith("::%sKind" % kind) and "v" in t:
            return t["v"][j]["name"]

def column(rep, p, I, st, name):
    """A container made in place of a value records the column its entries will stand in."""
    sid = lib.self_id(I, st)
    for e in lib.entries(I, st):
        if e.gone or e.v is None or e.v[0] == "top" or e.kind() not in ("Mapping", "Sequence") or e.same_raw() is True:
            continue
        if sid is None or not st.F.eq(e.id, sid):
            continue
        rep.count("containers made")
        col = e.f("indent")
        t = lib.text_of(I, st, e.f("layout", "prefix"))
        if t is None or col is None or not is_int(col):
            rep.undecided("column", name); continue
        ps = lib.norm_text(I, st, t)
        if all(x[0] in ("lit", "rep") for x in ps) and not any(x[0] == "lit" and b"\n" in x[1] for x in ps):
            # on the line of the item it belongs to: two columns (dash and space) further than the sequence
            q = sequence_above(p, I, st, e)
            n = C(1)
            for x in ps:
                n = add(n, plen(x))
            if q is None:
                rep.undecided("column", name + ": on the line of its item"); continue
            lib.verdict(rep, "column", lib.eq(st, col, add(q, n)), name + "/item", name + " records a column other than the one its entries stand in (first line of a sequence item)", name + " in a sequence item")
        elif ps and ps[0][0] == "lit" and ps[0][1][:1] == b"\n":
            n = C(-1)
            for x in ps:
                l = plen(x)
                n = None if n is None or l is None else add(n, l)
            ok = None if n is None else lib.eq(st, col, n)
            if any(b"\n" in x[1] for x in ps[1:] if x[0] == "lit") or b"\n" in ps[0][1][1:]:
                ok = None
            lib.verdict(rep, "column", ok, name + "/line", name + " records a column other than the one its entries stand in (own line)", name + " on its own line")
        elif len(ps) <= 1:
            lib.verdict(rep, "column", counted(I, st, ps, col), name + "/kept", name + " records a column other than that of the text in front of the value", name + " where the value stood")
        else:
            rep.undecided("column", name)

def sequence_above(p, I, st, e):
    """Column of the block sequence whose item holds this value."""
    par = parent_of(I, st, e)
    if par is None or par.kind() != "SequenceItem":
        return None
    q = parent_of(I, st, par)
    if q is None or q.kind() != "Sequence":
        return None
    v = q.f("indent")
    return v if v is not None and is_int(v) else None

def parent_of(I, st, e):
    v = e.f("layout", "parent")
    v = lib.opt(I, st, v) if v is not None else None
    if v is None or v == "bad":
        return None
    i = I.idof(st, v)
    c = ("E", addc(i, -1)) if i is not None else None
    for k in st.mem:
        if k[0] == "E" and c is not None and (k == c or st.F.eq(k[1], c[1])):
            return lib.Entry(I, st, k)
    return None

def counted(I, st, ps, col):
    """Is `col` the number of characters behind the last line break of this text?"""
    s = mono(col)
    if not ps:
        return lib.eq(st, col, C(0))
    x = ps[0]
    key = next((k for k, v in I.names.items() if v == s and type(k) is tuple and k[:1] == ("count",)), None) if s and col[1] == 0 else None
    if key is None:
        return False if x[0] == "sub" and (is_const(col) or not (syms_of(col, set()) - RIGID)) else None
    w = lib.norm_text(I, st, key[2])
    if not w:
        return None
    if x[0] != "sub" or len(w) != 1 or w[0][0] != "sub" or w[0][1] != x[1]:
        return None
    lo = w[0][2]
    if not st.F.eq(w[0][3], x[3]):
        return None
    c = st.F.cover(x[1], lo, x[3])
    if c is not None and rs_has(c, 10) and not st.F.eq(lo, x[3]):
        return None
    if st.F.eq(lo, x[2]):
        return True
    b = st.F.find_byte(x[1], addc(lo, -1))
    return True if b is not None and st.F.get_mask(b) == ((10, 10),) else None
