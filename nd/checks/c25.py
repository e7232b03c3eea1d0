"""C25: setters store the requested kind, content and style."""
import re
from .. import ir, lang, lib
from ..dom import *
from ..report import Report
from . import c14, c16

VALUES = ("Null", "Boolean", "Number", "String", "Mapping", "Sequence")

def run():
    rep = Report("C25", "other", "abstract interpretation of the value constructors behind set, push and insert",
        "Every non-numeric setter, pusher and inserter is interpreted over a symbolic document and symbolic arguments (any text, any sequence of lines, any option). In each outcome the value stored is compared with "
        "what the method's name and arguments ask for: the flag and its keyword, the null form, the complete given text with the requested style, an empty container, or the block text, whose content is the "
        "lines joined and terminated as style and chomping demand and whose source text starts with the matching block header and repeats every line in order.", [])
    p = ir.load("all")
    R = lib.Runner(p, peel=True)
    fields = c16.content_fields(p, R, lib.api(p))
    n = 0
    for ty, m, key in c14.mutators(p):
        name = ty + "::" + m
        mm = re.match(r"^(set|push|insert)(?:_(.*))?$", m)
        if mm and re.match(r"^[uif]\d+$", mm.group(2) or ""):
            continue
        mk = re.match(r"^make_(mapping|sequence)$", m)
        if not mm and not mk:
            continue
        n += 1
        I, outs = R.run(key, views=lib.self_views(c14.VIEWS[ty]))
        if I.failed or not outs:
            rep.undecided("stored", name + ": " + str(I.failed)); continue
        seen = set()
        for st, v in outs:
            if st.taint:
                rep.undecided("stored", name + ": " + ", ".join(sorted(st.taint))); continue
            if mk:
                make(rep, p, I, st, v, mk.group(1).capitalize(), name, seen)
            else:
                store(rep, p, I, st, v, ty, mm.group(2) or "", p.fns[key], name, fields)
        if mk and len(seen) < 2 and not any(name in u for u in rep.und):
            rep.bad("make", name + "/always", name + " treats every value alike")
    rep.floor("anchors", "constructing operations", n, 14)
    return rep

def stored(I, st, ty):
    sid = lib.self_id(I, st)
    for e in lib.entries(I, st):
        if e.gone or e.v is None or e.v[0] == "top":
            continue
        me = sid is not None and st.F.eq(e.id, sid)
        if me != (ty == "ValueMut"):
            continue
        if e.kind() in VALUES and (me or e.new or e.same_raw() is not True):
            yield e

def store(rep, p, I, st, v, ty, what, f, name, fields):
    es = list(stored(I, st, ty))
    if len(es) != 1:
        if not es:
            rep.bad("stored", name + "/nothing", name + " can return without having stored a value")
        else:
            rep.undecided("stored", name + ": several values")
        return
    e = es[0]
    k = e.kind()
    arg = f["n_args"] - 1
    def kind(want):
        return rep.check("kind", k == want, name, "%s stores a %s" % (name, k), name)
    if what == "bool":
        if kind("Boolean"): boolean(rep, I, st, e, "a%d" % arg, f["locals"][arg + 1], name)
    elif what == "null":
        if kind("Null"): null(rep, p, I, st, e, ("a%d" % arg,), f["locals"][arg + 1], name)
    elif what == "":
        kind("Null")
        d = lib.describe(I, st, v)
        if d and d[0] == "view":
            lib.verdict(rep, "returned", lib.eq(st, d[2], e.id), name, name + " returns a view of another node", name)
    elif what in ("string", "str"):
        if kind("String"): string(rep, p, I, st, e, "a%d" % arg, None, name, fields)
    elif what == "string_with":
        if kind("String"): string(rep, p, I, st, e, "a%d" % (arg - 1), (("a%d" % arg,), f["locals"][arg + 1]), name, fields)
    elif what == "block":
        if kind("String"): block(rep, p, I, st, e, "a%d" % (arg - 1), ("a%d" % arg,), f["locals"][arg + 1], name, fields)

def payload(I, st, e):
    v = I.models.deref(st, e.raw[3][0]) if e.raw[3] else None
    return I.expand(st, v) if v is not None and v[0] == "sym" else v

def lit(I, st, t):
    if t is None: return None
    ps = lib.norm_text(I, st, t)
    return b"".join(x[1] for x in ps) if all(x[0] == "lit" for x in ps) else None

def boolean(rep, I, st, e, arg, aty, name):
    a = I.expand(st, ("sym", (arg,), aty))
    b = e.f("value")
    ok = lib.same(I, st, a, b) if b is not None else None
    lib.verdict(rep, "content", ok, name + "/value", name + " does not store the flag it is given", name)
    txt = lit(I, st, lib.text_of(I, st, e.f("string"))) if e.f("string") is not None else None
    val = True if is_int(a) and st.F.eq(a, C(1)) else False if is_int(a) and st.F.eq(a, C(0)) else None
    if txt is None or val is None:
        rep.undecided("content", name + ": keyword"); return
    rep.check("content", txt == (b"true" if val else b"false"), name + "/keyword", "%s writes %r for %s" % (name, txt.decode("latin1"), val), name + " keyword")

def variant_at(p, st, nm, ti):
    i = st.F.var.get(nm)
    return None if i is None or "v" not in p.types[ti] else p.types[ti]["v"][i]["name"]

def null(rep, p, I, st, e, nm, ti, name):
    want = variant_at(p, st, nm, ti)
    v = payload(I, st, e)
    got = I.variant(v) if v is not None and v[0] == "adt" else None
    if want is None and got is not None:
        rep.bad("content", name + "/blind", name + " stores a fixed null form"); return
    lib.verdict(rep, "content", None if got is None else got == want, name + "/form", "%s stores %s for %s" % (name, got, want), name + " " + str(want))
    if got == "Keyword" and v[3]:
        t = lit(I, st, lib.text_of(I, st, v[3][0]))
        lib.verdict(rep, "content", None if t is None else t == b"null", name + "/keyword", "%s writes %r for a null" % (name, t), name + " keyword")

def texts(I, st, e):
    v = payload(I, st, e)
    out = {}
    if v is not None and v[0] == "adt":
        for (fn, ft), x in zip(I.p.types[v[1]]["v"][0]["f"], v[3]):
            if I.p.types[ft].get("path", "").endswith("::StringId"):
                out[fn] = lib.text_of(I, st, x)
            elif I.p.types[ft].get("ak") == "enum":
                y = I.models.deref(st, x)
                out["kind"] = I.variant(y) if y[0] == "adt" else None
    return out

def string(rep, p, I, st, e, arg, style, name, fields):
    ts = texts(I, st, e)
    for fn, t in sorted(ts.items()):
        if fn == "kind":
            continue
        ok = None if t is None else True if lib.whole(I, st, t, lambda nm: nm[:1] == (arg,)) else \
            False if all(x[0] in ("sub", "lit") for x in lib.norm_text(I, st, t)) else None
        what = "content" if fn in fields or not fields else "source text"
        lib.verdict(rep, "content", ok, name + "/" + fn, "%s does not store the text it is given as the %s" % (name, what), name + " " + what)
    if style is not None:
        want = variant_at(p, st, *style)
        got = ts.get("kind")
        if want is None:
            rep.bad("style", name + "/blind", name + " does not look at the requested style") if got is not None else rep.undecided("style", name); return
        lib.verdict(rep, "style", None if got is None else got == want, name, "%s stores style %s when asked for %s" % (name, got, want), name + " " + want)
    else:
        got = ts.get("kind")
        lib.verdict(rep, "style", None if got is None else got in ("Bare", "Single", "Double"), name, "%s stores style %s" % (name, got), name + " automatic")

def item_text(x, arg, st, I):
    """Position of the line whose complete text this piece is ('*' in repeated parts), else None."""
    if x[0] != "sub":
        return None
    nm = x[1]
    if not (type(nm) is tuple and nm and type(nm[0]) is tuple and nm[0][:2] == ("obj", "item") and nm[0][2][:1] == (arg,)):
        return None
    if not (is_int(x[2]) and x[2] == C(0)):
        return None
    if x[3] != "len" and not st.F.eq(x[3], I.length(st, nm)):
        return None
    return nm[0][3][1]

def block(rep, p, I, st, e, arg, nm, ti, name, fields):
    style = variant_at(p, st, nm, ti)
    if style is None:
        rep.bad("style", name + "/blind", name + " does not look at the block style"); return
    chomp = None
    for k, i in st.F.var.items():
        if type(k) is tuple and k[:1] == nm and len(k) > 1 and style in k:
            vt = [x for v in p.types[ti]["v"] if v["name"] == style for x in v["f"]]
            if vt: chomp = p.types[vt[0][1]]["v"][i]["name"]
    if chomp is None:
        rep.bad("style", name + "/chomp", name + " does not look at the chomping mode"); return
    ts = texts(I, st, e)
    join = {"Literal": b"\n", "Folded": b" "}.get(style)
    term = {"Clip": b"\n", "Keep": b"\n", "Strip": b""}.get(chomp)
    head = {"Literal": b"|", "Folded": b">"}.get(style)
    tail = {"Clip": b"", "Keep": b"+", "Strip": b"-"}.get(chomp)
    if None in (join, term, head, tail):
        rep.undecided("style", name + ": " + style + " " + chomp); return
    label = "%s %s %s" % (name, style, chomp)
    for fn, t in sorted(ts.items()):
        if fn == "kind":
            continue
        if t is None:
            rep.undecided("content", label); continue
        if fn in fields:
            ok = block_content(I, st, t, arg, join, term)
            lib.verdict(rep, "content", ok, name + "/content/" + style + "/" + chomp, "%s does not join and terminate the lines as %s with %s demands" % (name, style, chomp), label)
        else:
            ok = block_source(I, st, t, arg, head + tail)
            lib.verdict(rep, "style", ok, name + "/source/" + style + "/" + chomp, "the source text %s stores does not show %s with %s and every line" % (name, style, chomp), label)
    rep.check("style", ts.get("kind") not in ("Single", "Double"), name + "/quoted", name + " stores a block in a quoted style", label + " style")

def pieces_re(I, st, ps, arg):
    """A text over the lines of a block as a regular expression: bytes, "I" a whole line, "i" part of one, "P" text of a prefix."""
    out = []
    for x in ps:
        if x[0] == "lit":
            out.append(lang.lit(x[1]))
        elif x[0] == "star":
            out.append(lang.star(lang.alt(*[pieces_re(I, st, a, arg) for a in x[1]])))
        elif x[0] == "alt":
            out.append(lang.alt(*[pieces_re(I, st, a, arg) for a in x[1]]))
        elif x[0] == "rep":
            out.append(lang.star(lang.tok(x[1][1] if is_int(x[1]) and is_const(x[1]) else "?")))
        elif x[0] == "sub":
            nm = x[1]
            if item_text(x, arg, st, I) is not None:
                out.append(lang.tok("I"))
            elif type(nm) is tuple and nm and type(nm[0]) is tuple and nm[0][:2] == ("obj", "item"):
                out.append(lang.tok("i"))
            else:
                out.append(lang.tok("P" if "prefix" in nm else "?"))
        else:
            out.append(lang.tok("?"))
    return lang.cat(*out)

def within(I, st, t, arg, spec):
    w = lang.beyond(pieces_re(I, st, t[1], arg), spec)
    return True if w is None else None if "?" in w or nested(t[1]) else False

def nested(ps, deep=False):
    """Repetitions of repetitions stem from merged loop states and blur where a line begins."""
    return any(x[0] == "star" and (deep or any(nested(a, True) for a in x[1])) or x[0] == "alt" and any(nested(a, deep) for a in x[1]) for x in ps)

def block_content(I, st, t, arg, join, term):
    line = lang.tok("I")
    return within(I, st, t, arg, lang.cat(lang.opt(lang.cat(line, lang.star(lang.cat(lang.lit(join), line)))), lang.lit(term)))

def block_source(I, st, t, arg, head):
    gap = lang.star(lang.alt(lang.tok(32), lang.tok(9), lang.tok(10), lang.tok("P")))
    line = lang.cat(gap, lang.tok(10), gap, lang.tok("I"))
    return within(I, st, t, arg, lang.cat(lang.lit(head), lang.star(line), gap))

def make(rep, p, I, st, v, kind, name, seen):
    sid = lib.self_id(I, st)
    if sid is None:
        rep.undecided("make", name); return
    d = lib.describe(I, st, v)
    lib.verdict(rep, "returned", lib.eq(st, d[2], sid) if d and d[0] == "view" else None, name, name + " returns a view of another node", name)
    i = st.F.var.get(("E", addc(sid, -1), "raw"))
    init = None if i is None else p.types[I._raw_ty()]["v"][i]["name"]
    e = next((x for x in lib.entries(I, st) if st.F.eq(x.id, sid)), None)
    if e is not None and (e.gone or e.raw is None):
        rep.undecided("make", name); return
    written = e is not None and not (e.same_raw() is True and e.same_layout() is True)
    if init is None:
        rep.bad("make", name + "/blind", name + " does not look at what the value is"); return
    if init == kind:
        seen.add("kept")
        rep.check("make", not written, name + "/kept", "%s replaces a value that is a %s already" % (name, kind), name + " keeps"); return
    seen.add("made")
    if not written:
        rep.bad("make", name + "/left", "%s leaves a %s as it is" % (name, init)); return
    rep.check("make", e.kind() == kind, name + "/kind", "%s makes the value a %s" % (name, e.kind()), name + " " + init)
    if e.kind() == kind:
        l = e.f("items")
        l = I.models.deref(st, l) if l is not None else None
        lib.verdict(rep, "make", None if l is None or l[0] != "list" else not l[1], name + "/empty", name + " does not make an empty container", name + " empty")
        kd = e.f("kind")
        kv = I.variant(kd) if kd is not None and kd[0] == "adt" else None
        lib.verdict(rep, "make", None if kv is None else kv != "Inline", name + "/inline", name + " makes an inline container although entries are appended on lines of their own", name + " block")
