"""C09: typed views agree with the kind of the value."""
from .. import ir, lib
from ..dom import *
from ..report import Report

# type handed out -> kind of node it is a view of
OF = {"Mapping": {"Mapping"}, "MappingMut": {"Mapping"}, "Sequence": {"Sequence"}, "SequenceMut": {"Sequence"}, "Number": {"Number"},
      "String": {"String"}, "bool": {"Boolean"}, "text": {"String"}}
ANY = {"Null": {"Null"}, "Bool": {"Boolean"}, "Number": {"Number"}, "String": {"String"}, "Mapping": {"Mapping"}, "Sequence": {"Sequence"},
       "Raw": {"MappingItem", "SequenceItem"}, "Scalar": {"Null", "Boolean", "Number", "String"}}
ALL = {"Null", "Boolean", "Number", "String", "Mapping", "Sequence"}

def run():
    rep = Report("C09", "other", "abstract interpretation of the typed accessors",
        "Every accessor of a value, borrowed, owned, mutable or dynamic, is interpreted over a symbolic value of every kind in a symbolic document. In each outcome the view that is "
        "handed out must be of the kind the value has and refer to that same value (same node, or the stored text or flag of that node), nothing is handed out for any other kind, "
        "and no outcome may write to the document. Conversions between views must keep the node.", [])
    p = ir.load("all")
    api = lib.api(p)
    R = lib.Runner(p)
    content, raws = {}, {}
    n = 0
    for (ty, tr, m), key in sorted(api.items(), key=str):
        if tr is not None and not (ty == "String" and tr == "Deref"):
            continue
        if p.item.get(key, {}).get("pub") is False and tr is None:
            continue
        f = p.fns[key]
        if f["n_args"] < 1:
            continue
        name = ty + "::" + m
        ret = rtype(p, f["locals"][0])
        if ty in ("Value", "ValueMut") and f["n_args"] == 1 and (ret in OF or ret in ("Any", "AnyMut")) and not m.startswith("make_"):
            n += accessor(rep, p, R, name, key, ret, content)
        elif f["n_args"] == 1 and ty in lib.VIEWS and ret in ("Value", "Mapping", "Sequence", "ValueMut", "Id") and not opt_ret(p, f) and not m.startswith("make_"):
            n += same_node(rep, p, R, name, key, ty, ret)
        elif ty == "String" and f["n_args"] == 1 and ret == "text":
            n += string_view(rep, p, R, name, key, m, content, raws)
        elif ty in ("Any", "AnyMut") and f["n_args"] == 1:
            n += dynamic(rep, p, R, name, key, ty, ret)
        elif ty == "Document" and ret in ("Value", "ValueMut"):
            n += document(rep, p, R, name, key)
    rep.floor("accessors", "accessors", n, 24)
    if len(content) > 1:
        for fld, who in sorted(content.items()):
            rep.bad("content", str(fld), "the accessors disagree on the content of a string: %s read %s" % (", ".join(sorted(who)), fld))
    elif content:
        rep.ok("content", "all string accessors read the same stored text")
        for fld, who in raws.items():
            rep.check("content", fld not in content, "raw", "%s gives the content instead of the source text" % ", ".join(sorted(who)), "raw text")
    return rep

def opt_ret(p, f):
    return p.types[f["locals"][0]].get("path", "").endswith("::Option")

def rtype(p, ti):
    t = p.types[ti]
    while True:
        if t["k"] == "adt" and t["path"].endswith("::Option"):
            t = p.types[t["args"][0]]
        elif t["k"] == "ref":
            t = p.types[t["e"]]
        else:
            break
    if t["k"] == "str" or t.get("path") == "bstr::BStr" or t["k"] == "slice":
        return "text"
    if t["k"] == "adt":
        return t["path"].split("::")[-1]
    return t["k"] if t["k"] != "bool" else "bool"

def outcomes(rep, p, R, name, key, views):
    I, outs = R.run(key, views=views)
    if I.failed or not outs:
        rep.undecided("accessors", name + ": " + str(I.failed)); return
    for q in I.panics:
        if not q["taint"]:
            rep.bad("accessors", name + "/panic", name + " can panic: " + q["msg"])
        else:
            rep.undecided("accessors", name + ": panic " + q["msg"])
    for st, v in outs:
        if st.taint:
            rep.undecided("accessors", name + ": " + ", ".join(sorted(st.taint))); continue
        w = lib.changed(I, st)
        rep.check("readonly", not w, name, name + " writes to the document", name)
        yield I, st, v

def accessor(rep, p, R, name, key, ret, content):
    gives = {}
    for I, st, v in outcomes(rep, p, R, name, key, lib.self_views(None)):
        sid = lib.self_id(I, st)
        kind = I.vname(st, addc(sid, -1)) if sid is not None else None
        d = lib.describe(I, st, v)
        if d is None:
            rep.undecided("accessors", name + ": result"); continue
        if d == ("none",):
            if kind is None:
                rep.bad("accessors", name + "/blind", name + " yields nothing without looking at the value's kind"); continue
            if kind in OF.get(ret, ()):
                # only text that is not valid UTF-8 may be withheld
                bad8 = any(type(k) is tuple and k[0] == "utf8" and x is False for k, x in st.F.eqs.items())
                rep.check("accessors", bad8 and ret == "text", name + "/none", "%s yields nothing for a %s" % (name, kind), name + " withheld")
            else:
                rep.ok("accessors", "%s on %s: nothing" % (name, kind))
            continue
        if kind is None:
            rep.bad("accessors", name + "/blind", name + " yields a value without looking at the value's kind"); continue
        want = ret
        if d[0] == "enum" and d[1] in ("Any", "AnyMut"):
            want = d[2]
            allowed = ANY.get(want)
            if allowed is None:
                rep.undecided("accessors", "%s: variant %s" % (name, want)); continue
            rep.check("accessors", kind in allowed, name + "/" + kind, "%s presents a %s as %s" % (name, kind, want), "%s on %s" % (name, kind))
            gives.setdefault(kind, set()).add(want)
            if not d[3]:
                continue
            d = d[3][0]
            if d is None:
                rep.undecided("accessors", name + ": payload"); continue
        else:
            rep.check("accessors", kind in OF[ret], name + "/" + kind, "%s yields a value for a %s" % (name, kind), "%s on %s" % (name, kind))
            gives.setdefault(kind, set()).add(want)
        rep_same(rep, I, st, p, name, kind, d, sid, content)
    if ret in OF:
        miss = OF[ret] - set(gives)
        if gives or not any(name + ":" in u for u in rep.und):
            rep.check("accessors", not miss, name + "/never", "%s never yields a value for a %s" % (name, ", ".join(sorted(miss))), name + " complete")
    return 1

def rep_same(rep, I, st, p, name, kind, d, sid, content):
    base = ("E", addc(sid, -1), "raw")
    if d[0] == "view":
        ok = lib.eq(st, d[2], sid) if d[2] is not None else None
    elif d[0] == "rawview":
        vi = I.vindex(I._raw_ty(), kind)
        ok = lib.eq(st, d[2], addc(sid, -1))
        if ok and d[3][:1] != (("f", None, 0),):
            ok = None
        if ok and not any(x[:1] == ("f",) and x[1] == vi for x in d[3]):
            ok = False
    elif d[0] in ("int", "bool"):
        o = I.origin.get(mono(d[1]) or -1, ()) if d[0] == "int" else ()
        ok = o[:5] == base + (kind, "0") and d[1][1] == 0
    elif d[0] == "text":
        ps = lib.norm_text(I, st, d[1])
        ok = len(ps) == 1 and ps[0][0] == "sub" and ps[0][1][:4] == base + (kind,) and lib.whole(I, st, d[1], lambda n: True)
        if ok:
            content.setdefault(ps[0][1][-1], set()).add(name)
    else:
        ok = None
    lib.verdict(rep, "same-value", ok, name + "/" + kind, "%s hands out something other than the %s it was asked about" % (name, kind), "%s %s" % (name, kind))

def same_node(rep, p, R, name, key, ty, ret):
    k = next(iter(lib.VIEWS[ty])) if lib.VIEWS[ty] else None
    for I, st, v in outcomes(rep, p, R, name, key, lib.self_views(k)):
        d = lib.describe(I, st, v)
        sid = lib.self_id(I, st)
        i = d[2] if d and d[0] == "view" else d[1] if d and d[0] == "id" else None
        if i is None:
            rep.undecided("same-value", name); continue
        if sid is None:
            want = [("a0", "id", "0"), ("a0", "*", "id", "0")]
            o = I.origin.get(mono(i) or -1)
            ok = True if o in want and i[1] == 0 else None
        else:
            ok = lib.eq(st, i, sid)
        lib.verdict(rep, "same-value", ok, name, name + " leads to a different node", name)
    return 1

def string_view(rep, p, R, name, key, m, content, raws):
    for I, st, v in outcomes(rep, p, R, name, key, {}):
        d = lib.describe(I, st, v)
        if d is None or d[0] != "text":
            rep.undecided("content", name); continue
        ps = lib.norm_text(I, st, d[1])
        ok = len(ps) == 1 and ps[0][0] == "sub" and ps[0][1][:2] == ("a0", "*") and lib.whole(I, st, d[1], lambda n: True)
        rep.check("same-value", ok, name, name + " does not give the complete stored text", name)
        if ok:
            (raws if "raw" in m else content).setdefault(ps[0][1][-1], set()).add(name)
    return 1

def dynamic(rep, p, R, name, key, ty, ret):
    vs = {}
    for I, st, v in outcomes(rep, p, R, name, key, {}):
        # which variant of the dynamic view this outcome is about
        cur = None
        for nm, vi in st.F.var.items():
            if type(nm) is tuple and nm in (("a0",), ("a0", "*")):
                t = self_ty(p, key)
                cur = t["v"][vi]["name"]
        if cur is None:
            a = st.mem.get(("P", ("a0", "*"), None))
        d = lib.describe(I, st, v)
        if d is None and v[0] not in ("adt",):
            rep.undecided("dynamic", name); continue
        if cur is None:
            rep.bad("dynamic", name + "/blind", name + " does not look at what it holds"); continue
        if ret == "bool" and not opt_ret(p, p.fns[key]):
            want = "Null"
            bv = d[1] if d[0] == "bool" else (d[1][1] if d[0] == "int" and is_const(d[1]) else None)
            if bv is None: rep.undecided("dynamic", name); continue
            rep.check("dynamic", bool(bv) == (cur == want), name + "/" + cur, "%s answers %s for %s" % (name, bool(bv), cur), name + " " + cur)
        elif ret == "Id":
            i = d[1] if d and d[0] == "id" else None
            o = I.origin.get(mono(i) or -1) if i is not None else None
            ok = o is not None and cur in o and i[1] == 0
            lib.verdict(rep, "dynamic", True if ok else (None if o is None else False), name + "/" + cur, name + " gives another node's identifier", name + " " + cur)
        else:
            want = {"bool": "Bool"}.get(ret, ret)
            some = d != ("none",)
            rep.check("dynamic", some == (cur == want), name + "/" + cur, "%s %s for %s" % (name, "yields a value" if some else "yields nothing", cur), name + " " + cur)
            if some:
                ok = ("a0", cur) == payload_origin(I, st, v)[:2]
                lib.verdict(rep, "dynamic", ok or None, name + "/payload", name + " yields another value than the one it holds", name + " payload")
    return 1

def payload_origin(I, st, v):
    o = lib.opt(I, st, v)
    if o in (None, "bad"):
        return ()
    if is_int(o):
        s = mono(o)
        return tuple(I.origin.get(s, ()))
    if o[0] == "b":
        return ()
    if o[0] == "adt":
        for x in o[3]:
            if x[0] == "sym":
                return x[1]
            if x[0] == "ref" and x[1][0] == "P":
                return x[1][1]
    return o[1] if o[0] == "sym" else ()

def self_ty(p, key):
    t = p.types[p.fns[key]["locals"][1]]
    return p.types[t["e"]] if t["k"] == "ref" else t

def document(rep, p, R, name, key):
    f = p.fns[key]
    for I, st, v in outcomes(rep, p, R, name, key, {}):
        d = lib.describe(I, st, v)
        if not d or d[0] != "view":
            rep.undecided("same-value", name); continue
        o = I.origin.get(mono(d[2]) or -1)
        if o is None:
            rep.undecided("same-value", name); continue
        ok = (o[0] == "a1") if f["n_args"] == 2 else "root" in o
        rep.check("same-value", ok, name, name + " leads to a different node", name)
    return 1
