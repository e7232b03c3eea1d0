"""C10: typed number setters and getters."""
import re
from .. import ir, lib
from ..dom import *
from ..report import Report

TYPES = ["u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128", "f32", "f64"]

def run():
    rep = Report("C10", "other", "abstract interpretation of the numeric accessors",
        "Every numeric setter, pusher and inserter is interpreted over a symbolic document and value; in every outcome the number it stores must be the library formatting "
        "of its own argument, with the type tag used for that type and for no other. Every numeric getter must parse the complete text of the value itself as the type "
        "in its name and hand on that result.",
        ["itoa, ryu and lexical-core format and parse exactly (C31 is not claimed)"])
    p = ir.load("all")
    api = lib.api(p)
    R = lib.Runner(p)
    tags = {}
    n = 0
    for (ty, tr, m), key in sorted(api.items(), key=str):
        mm = re.match(r"^(set|push|insert)_([uif]\d+)$", m)
        if tr is None and mm and mm.group(2) in TYPES and ty in ("ValueMut", "SequenceMut", "MappingMut"):
            n += 1
            setter(rep, p, R, ty, m, mm.group(2), key, tags)
    rep.floor("setters", "numeric setters", n, 36)
    for t in TYPES:
        if len(tags.get(t, ())) > 1:
            rep.bad("tag", t, "values given as %s are tagged %s" % (t, ", ".join(sorted(tags[t]))))
    inv = {}
    for t, s in tags.items():
        for x in s: inv.setdefault(x, set()).add(t)
    for x, s in sorted(inv.items()):
        rep.check("tag", len(s) == 1, x, "the type tag %s is stored for values of different types: %s" % (x, ", ".join(sorted(s))), "tag %s" % x)
    n = 0
    for (ty, tr, m), key in sorted(api.items(), key=str):
        mm = re.match(r"^as_([uif]\d+)$", m)
        if tr is None and mm and mm.group(1) in TYPES and ty in ("Value", "Number"):
            n += 1
            getter(rep, p, R, ty, m, mm.group(1), key)
    rep.floor("getters", "numeric getters", n, 24)
    return rep

def stored_numbers(I, st):
    for e in lib.entries(I, st):
        if not e.gone and e.kind() == "Number" and (e.new or e.same_raw() is not True):
            yield e

def setter(rep, p, R, ty, m, t, key, tags):
    name = ty + "::" + m
    kind = {"SequenceMut": "Sequence", "MappingMut": "Mapping"}.get(ty)
    I, outs = R.run(key, views=lib.self_views(kind))
    if I.failed or not outs:
        rep.undecided("setters", name + ": " + str(I.failed)); return
    f = p.fns[key]
    arg = f["n_args"] - 1
    for st, v in outs:
        if st.taint:
            rep.undecided("setters", name + ": " + ", ".join(sorted(st.taint))); continue
        es = list(stored_numbers(I, st))
        if not es:
            rep.bad("setters", name + "/none", name + " can return without having stored the number"); continue
        for e in es:
            txt = lib.text_of(I, st, e.f("string"))
            hint = e.f("hint")
            ok = is_formatted(I, st, p, txt, arg, t, f["locals"][arg + 1])
            lib.verdict(rep, "setters", ok, name + "/text", name + " does not store the decimal text of the value it was given", name)
            if hint is not None and hint[0] == "adt" and len(p.types[hint[1]].get("v", [])) > 1:
                tags.setdefault(t, set()).add(I.variant(hint))
            elif hint is None:
                rep.undecided("setters", name + ": tag")

def is_formatted(I, st, p, txt, arg, t, aty):
    """Is the text the complete output of formatting argument `arg` as type t?"""
    if txt is None:
        return None
    ps = lib.norm_text(I, st, txt)
    if len(ps) != 1 or ps[0][0] != "sub":
        return None if any(x[0] not in ("lit",) for x in ps) else False
    b = ps[0][1]
    if b[0] not in ("itoa", "ryu"):
        return False if b[0] in ("E", "a0") else None
    want = I.expand(st, ("sym", ("a%d" % arg,), aty))
    v = b[1]
    okv = v == want or is_int(v) and is_int(want) and lib.eq(st, v, want)
    okt = p.types[b[2]]["s"] == t
    full = st.F.eq(ps[0][2], C(0)) and st.F.eq(ps[0][3], I.length(st, b))
    return bool(okv and okt and full)

def getter(rep, p, R, ty, m, t, key):
    name = ty + "::" + m
    I, outs = R.run(key, views=lib.self_views(None))
    if I.failed or not outs:
        rep.undecided("getters", name + ": " + str(I.failed)); return
    sid = lib.self_id(I, None)
    parsed = False
    for st, v in outs:
        if st.taint:
            rep.undecided("getters", name + ": " + ", ".join(sorted(st.taint))); continue
        o = lib.opt(I, st, v)
        if ty == "Value":
            kind = I.vname(st, addc(sid, -1)) if sid is not None else None
            base = ("E", addc(sid, -1), "raw", "Number", "0", "string") if sid is not None else None
        else:
            kind, base = "Number", None
        if o is None:
            # nothing is yielded: only for another kind, or when parsing failed
            if kind == "Number" or kind is None:
                ok = any(k[0] == "parses" and val is False for k, val in st.F.eqs.items() if type(k) is tuple)
                lib.verdict(rep, "getters", ok or None, name + "/none", name + " can yield nothing without having tried to parse", name + " none")
            else:
                rep.ok("getters", name + " for a " + str(kind))
            continue
        if o == "bad":
            rep.undecided("getters", name + ": result"); continue
        if o[0] != "obj" or o[1] != "parsed":
            rep.bad("getters", name + "/value", name + " yields something other than the parsed text of the value"); continue
        lib_, pt, txt = o[2], o[3], o[4]
        parsed = True
        ok = pt == t
        rep.check("getters", ok, name + "/type", "%s parses the text as %s" % (name, pt), name)
        ps = lib.norm_text(I, st, txt)
        good = len(ps) == 1 and ps[0][0] == "sub" and st.F.eq(ps[0][2], C(0)) and st.F.eq(ps[0][3], I.length(st, ps[0][1])) and \
            (ps[0][1] == base if base is not None else ps[0][1][:2] == ("a0", "*") and "string" in ps[0][1] or ps[0][1][:1] == ("a0",) and "string" in ps[0][1])
        rep.check("getters", good, name + "/text", name + " does not parse the complete text of the value itself", name + " text")
    if not parsed:
        rep.bad("getters", name + "/never", name + " never yields a number")
