"""C11: deserialization hands over the value's own data and terminates."""
from .. import ir, lib, serde
from ..dom import *
from ..interp import UNIT
from ..report import Report

KINDS = {"Null", "Boolean", "Number", "String", "Mapping", "Sequence"}
# what a request calls for when the value is of this kind; every other kind is handed over as it is
ASK = {"bool": "Boolean", "char": "String", "str": "String", "string": "String", "bytes": "String", "byte_buf": "String", "option": None, "unit": "Null", "unit_struct": "Null",
       "newtype_struct": None, "seq": "Sequence", "tuple": "Sequence", "tuple_struct": "Sequence", "map": "Mapping", "struct": "Mapping"}
ASK.update({t: "Number" for t in serde.INTS})
PLAIN = {"any", "enum", "identifier", "ignored_any"}
VERR = ("obj", "vierr")
CUSTOM = ("obj", "vicustom")

class Monitor:
    """Follows the call of the foreign visitor on one path."""
    def __init__(self, rep, rule, name, I, hook):
        self.rep, self.rule, self.name, self.I, self.hook = rep, rule, name, I, hook
        I.on_call = self.on_call
        self.calls = 0
        self.again = None       # paths of the methods under which a renewed request would not end

    def bad(self, key, text):
        self.rep.bad(self.rule, self.name + "/" + key, self.name + " " + text)

    def und(self, text):
        self.rep.undecided(self.rule, self.name + ": " + text)

    def ver(self, ok, key, text, sample):
        if ok is None: self.und(key)
        elif ok: self.rep.ok(self.rule, self.name + ": " + sample)
        else: self.bad(key, text)

    def on_call(self, I, st, cal, args, atys, dty, caller, line):
        tr = (cal.get("trait") or "").replace("serde_core::", "serde::")
        if "serde" not in tr:
            return None
        m = cal["path"].split("::")[-1]
        if tr.endswith("::Error") and m in ("custom", "invalid_type", "invalid_value", "missing_field", "unknown_field", "invalid_length"):
            return [(st, CUSTOM)]
        if self.again is not None and cal.get("kind") == "item" and tr.endswith("::Deserializer"):
            k = cal.get("key")
            path = I.p.fns[k]["path"] if k in I.p.fns else None
            if path is not None and any(I.p.fns[s]["path"] == path for s in I.stack if s in I.p.fns):
                same = self.again(I, st, args[0])
                if same and not st.taint:
                    self.bad("recursion", "can request %s again and again for the same value" % m)
                else:
                    self.und("recursion")
                serde.put(st, "STOP")
                return []
            return None
        if cal.get("kind") != "unresolved" or tr.split("::")[-1] not in ("Visitor", "DeserializeSeed", "Deserializer", "Deserialize"):
            return None
        t = I.p.types[dty] if dty is not None else {}
        if not t.get("path", "").endswith("::Result"):
            return None
        cur = serde.get(st)
        if cur is None or cur[0] != "obj":
            return None
        self.calls += 1
        pc = "done"
        if st.taint:
            pc = "UNK"
        elif cur[2] != "start":
            if cur[2] != "UNK":
                self.bad("twice", "hands over a value after it has handed over one")
            pc = "UNK"
        elif self.hook(self, I, st, m, args, atys) is False:
            pc = "UNK"
        a, b = st, st.copy()
        serde.put(a, pc); serde.put(b, "err" if pc == "done" else pc)
        return [(a, I.models.ok(dty, ("obj", "viok"))), (b, I.models.err(dty, VERR))]

    def at_end(self, I, st, v, none=None):
        """none(I, st, v): what to say when nothing was handed over."""
        cur = serde.get(st)
        if st.taint:
            self.und(", ".join(sorted(st.taint))); return
        if cur is None or cur[0] != "obj" or cur[2] in ("UNK", "STOP"):
            self.und("outcome"); return
        if v[0] == "sym":
            v = I.expand(st, v)
        if v[0] != "adt":
            self.und("result"); return
        good = I.variant(v) == "Ok"
        pay = v[3][0] if v[3] else None
        if cur[2] == "done":
            if good and pay is not None and pay[0] == "adt" and I.p.types[pay[1]]["path"].endswith("::Option"):
                pay = pay[3][0] if I.variant(pay) == "Some" else ("none",)
            self.ver(good and pay == ("obj", "viok"), "result", "does not return what the receiver made of the value", "result")
        elif cur[2] == "err":
            self.ver(not good and pay == VERR, "errors", "drops an error of the receiver", "error passed on")
        else:
            none(I, st, good, pay)

def same_node(I, st, v, sid):
    d = lib.describe(I, st, v)
    if not d or d[0] != "view" or d[2] is None or sid is None:
        return None
    return lib.eq(st, d[2], sid)

def fields_ok(I, st, v, name):
    """A fresh access: starts at the first entry of the list `name`, covers all of it, and holds no value yet."""
    it = serde.find_it(I, st, v)
    if it is None:
        return None
    sl = it[3]
    ok = len(sl[1]) == 1 and sl[1][0][0] == "sl" and sl[1][0][1] == name and st.F.eq(it[4], sl[1][0][2]) and st.F.eq(sl[1][0][2], C(0)) and st.F.eq(it[5], I.length(st, name)) and not it[2]
    v = I.models.deref(st, v)
    if v[0] == "sym":
        v = I.expand(st, v)
    if v[0] == "adt":
        for x in v[3]:
            if x[0] == "adt" and I.p.types[x[1]].get("path", "").endswith("::Option") and I.variant(x) != "None":
                return False
    return ok

def value_method(rep, p, R, m, key, hs, fld):
    what = m[len("deserialize_"):]
    name = "Value::" + m
    def hook(M, I, st, vm, args, atys):
        if vm in ("visit_some", "visit_newtype_struct"):
            lib.describe(I, st, args[1])
        sid = lib.self_id(I, st)
        if sid is None:
            M.und("value"); return False
        x = addc(sid, -1)
        if vm in ("visit_some", "visit_newtype_struct"):
            if {"visit_some": "option", "visit_newtype_struct": "newtype_struct"}[vm] != what:
                M.bad(vm, "answers with " + vm); return
            if vm == "visit_some":
                kind = I.vname(st, x)
                M.ver(kind != "Null" and (kind is not None or not_null(I, st, x)), "some", "presents a null as a value", "some")
            M.ver(same_node(I, st, args[1], sid), "inner", "hands over another value than its own", "itself"); return
        kind = I.vname(st, x)
        if kind is None:
            M.bad("blind", "answers without looking at the kind of the value"); return
        want = ASK.get(what)
        v = args[1] if len(args) > 1 else None
        if kind == "Number":
            t = vm.replace("visit_", "")
            if t not in serde.INTS:
                M.bad("Number", "presents a number by %s" % vm); return
            d = v if v is None else I.models.deref(st, v)
            if want == "Number" and t == what:
                ok = d[0] == "obj" and d[1] == "parsed" and d[3] == t and serde.whole_of(I, st, d[4], ("E", x, "raw", "Number", "0", "string"))
                M.ver(True if ok else False if d[0] == "obj" else None, "number/" + t, "does not hand over the number that its complete text stands for", "number as asked for")
                return
            ok, why = serde.number(I, st, v, x, t, hs)
            if ok and want == "Number" and not serde.parse_failed(st, what):
                ok, why = False, "although %s was asked for and may fit" % what
            M.ver(ok, "number/" + t, "hands over as %s %s" % (t, why), "%s as %s" % (why, t))
        elif kind == "Null":
            allow = {"unit": {"visit_unit"}, "unit_struct": {"visit_unit"}, "option": {"visit_none"}}.get(what, {"visit_none", "visit_unit"})
            M.ver(vm in allow, "Null", "answers a null with " + vm, "null")
        elif kind == "Boolean":
            if vm != "visit_bool":
                M.bad("Boolean", "answers a boolean with " + vm); return
            M.ver(serde.flag(I, st, lib.describe(I, st, v), x), "Boolean/value", "does not hand over the stored truth value", "boolean")
        elif kind == "String":
            if vm not in ("visit_borrowed_str", "visit_borrowed_bytes"):
                M.bad("String", "answers a string with " + vm); return
            M.ver(serde.stored_text(I, st, v, ("E", x, "raw", "String", "0", fld)), "String/text", "does not hand over the complete content of the string", "string")
            if vm == "visit_borrowed_bytes" and what not in ("bytes", "byte_buf"):
                M.ver(serde.utf8_failed(st), "String/bytes", "hands over a string as bytes although it may be text", "bytes when not UTF-8")
            if vm == "visit_borrowed_str" and what in ("bytes", "byte_buf"):
                M.bad("String/str", "hands over text where bytes were asked for")
        elif kind in ("Sequence", "Mapping"):
            if vm != {"Sequence": "visit_seq", "Mapping": "visit_map"}[kind]:
                M.bad(kind, "answers a %s with %s" % (kind.lower(), vm)); return
            M.ver(fields_ok(I, st, v, ("E", x, "raw", kind, "0", "items")), kind + "/all", "does not hand over every entry from the first on", kind.lower())
        else:
            M.bad(str(kind), "hands over something for a node that is no value")
    box = {}
    def again(I, st, v):
        return same_node(I, st, v, lib.self_id(I, st))
    def setup(I, st, args):
        box["m"] = Monitor(rep, "request", name, I, hook)
        box["m"].again = again
        serde.put(st, "start")
    I, outs = R.run(key, views=lib.self_views(None), setup=setup)
    if I.failed:
        rep.undecided("request", name + ": " + str(I.failed)); return
    M = box["m"]
    def none(I, st, good, pay):
        if good:
            M.bad("nothing", "returns without handing over the value"); return
        sid = lib.self_id(I, st)
        kind = I.vname(st, addc(sid, -1)) if sid is not None else None
        if kind == "Number":
            M.ver(serde.parse_failed(st, "f64") or serde.parse_failed(st, "f32"), "Number/refused", "refuses a number that may be readable", "unreadable number refused")
        elif kind in KINDS or kind is None and sid is None:
            M.bad("%s/refused" % kind, "refuses a value without asking the receiver")
        else:
            M.ver(True if kind else None, "refused", "", "not a value")
    if not outs and not any(name in k for k in rep.viol):
        rep.undecided("request", name + ": no outcome")
    finish(rep, M, I, outs, name, none)
    rep.count(m, M.calls)

def not_null(I, st, x):
    c = st.mem.get(("E", x))
    e = lib.Entry(I, st, ("E", x))
    return e.raw is not None and e.raw[0] == "adt" and I.variant(e.raw) != "Null" or excluded(I, st, x)

def excluded(I, st, x):
    ti = I._raw_ty()
    i = I.vindex(ti, "Null")
    n = ("E", x, "raw")
    s = st.F.var.get(n)
    return s is not None and (s != i if isinstance(s, int) else i not in s)

def finish(rep, M, I, outs, name, none):
    for q in I.panics:
        if q["taint"]:
            M.und("panic " + q["msg"])
        else:
            M.bad("panic", "can panic: " + q["msg"])
    for st, v in outs:
        M.at_end(I, st, v, none)
        w = [c for c in lib.changed(I, st) if c[0] == "E"]
        rep.check("readonly", not w, name, name + " writes to the document", name)

def key_method(rep, p, R, ty, m, key):
    """A request put to the text of a key."""
    what = m[len("deserialize_"):]
    name = ty + "::" + m
    def hook(M, I, st, vm, args, atys):
        v = args[1] if len(args) > 1 else None
        if vm in ("visit_some", "visit_newtype_struct") and {"visit_some": "option", "visit_newtype_struct": "newtype_struct"}[vm] == what:
            M.ver(v is not None and v[0] in ("sym", "adt"), "inner", "", "itself"); return
        if vm not in ("visit_borrowed_str", "visit_borrowed_bytes"):
            if vm.startswith("visit_") and what in serde.INTS + ["bool", "enum"]:
                M.und(vm); return
            M.bad("form", "answers with " + vm); return
        t = I.models.as_text(st, v)
        ps = lib.norm_text(I, st, t) if t is not None else ()
        if t is None or len(ps) == 1 and ps[0][0] not in ("sub", "lit"):
            M.und("text"); return
        ok = len(ps) == 1 and ps[0][0] == "sub" and ps[0][1][:1] == ("a0",) and st.F.eq(ps[0][2], C(0)) and st.F.eq(ps[0][3], I.length(st, ps[0][1]))
        M.ver(ok, "text", "does not hand over the complete key", "key")
        if vm == "visit_borrowed_bytes" and what not in ("bytes", "byte_buf"):
            M.ver(serde.utf8_failed(st), "bytes", "hands over a key as bytes although it may be text", "bytes when not UTF-8")
    box = {}
    def setup(I, st, args):
        box["m"] = Monitor(rep, "key", name, I, hook)
        box["m"].again = lambda I, st, v: True
        serde.put(st, "start")
    I, outs = R.run(key, setup=setup)
    if I.failed:
        rep.undecided("key", name + ": " + str(I.failed)); return
    M = box["m"]
    def none(I, st, good, pay):
        M.bad("nothing", "does not hand over the key")
    finish(rep, M, I, outs, name, none)

def access(rep, p, R, ty, tr, m, key, keyty):
    """One step of handing over the entries of a container."""
    kind = "Mapping" if tr == "MapAccess" else "Sequence"
    name = ty + "::" + m
    f = p.fns[key]
    t = p.types[p.types[f["locals"][1]]["e"]]
    if t["k"] != "adt" or "v" not in t:
        rep.undecided("access", name); return
    its = [(n, ft) for n, ft in t["v"][0]["f"] if p.types[ft].get("path", "").endswith("::Iter")]
    opts = [(n, ft) for n, ft in t["v"][0]["f"] if p.types[ft].get("path", "").endswith("::Option")]
    if len(its) != 1 or len(opts) != (1 if kind == "Mapping" else 0):
        rep.undecided("access", name + ": fields"); return
    inner = [n for n, ft in p.types[its[0][1]].get("v", [{"f": []}])[0]["f"] if p.types[ft].get("path") == "std::slice::Iter"]
    if len(inner) != 1:
        rep.undecided("access", name + ": iterator"); return
    base = ("a0", "*", its[0][0], inner[0])
    box = {"at": []}
    def here(I, st, field):
        cur = I.read(st, ("P", ("a0", "*"), p.types[f["locals"][1]]["e"]))
        v = lib.field(I, st, cur, field)
        return I.expand(st, v) if v is not None and v[0] == "sym" else v
    def left(I, st):
        """First position not handed over yet."""
        v = here(I, st, its[0][0])
        it = serde.find_it(I, st, v)
        if it is None and v is not None and v[0] == "adt" and any(x[0] == "sym" and x[1] == base for x in v[3]):
            return C(0)
        return it[4] if it is not None else None
    def hook(M, I, st, vm, args, atys):
        if vm != "deserialize":
            M.und(vm); return False
        v = args[1]
        i = left(I, st)
        n = I.length(st, base)
        if m == "next_key_seed":
            d = I.models.deref(st, v)
            if d[0] == "sym":
                d = I.expand(st, d)
            ts = [lib.describe(I, st, x) for x in d[3]] if d[0] == "adt" and I.p.types[d[1]].get("path", "").split("::")[-1] in keyty else []
            ts = [x for x in ts if x and x[0] == "text"]
            if len(ts) != 1 or i is None:
                M.und("what the key is read from"); return False
            at = serde.key_place(I, st, ts[0][1], base)
            M.ver(None if at is None else at is not False and lib.eq(st, at[0], C(0)), "key", "does not hand over the complete key of the next entry", "next key")
            M.ver(lib.eq(st, i, C(1)), "advance", "does not move on by one entry", "moves on")
            val = here(I, st, opts[0][0])
            o = lib.opt(I, st, val) if val is not None else "bad"
            at = serde.element(I, st, o, base) if o not in (None, "bad") else None
            M.ver(False if o is None else None if at is None else at is not False and lib.eq(st, at, C(0)), "value", "does not keep the value that belongs to the key", "value kept")
            box["at"].append(1)
        elif m == "next_element_seed":
            at = serde.element(I, st, v, base)
            M.ver(None if at is None else at is not False and lib.eq(st, at, C(0)), "element", "does not hand over the next element", "next element")
            M.ver(None if i is None else lib.eq(st, i, C(1)), "advance", "does not move on by one element", "moves on")
        else:
            d = lib.describe(I, st, v)
            o = I.origin.get(mono(d[2])) if d and d[0] == "view" and d[2] is not None and mono(d[2]) else None
            ok = None if o is None else o[:3] == ("a0", "*", opts[0][0])
            M.ver(ok, "value", "does not hand over the value that was kept with the key", "value")
            M.ver(None if i is None else lib.eq(st, i, C(0)), "advance", "moves on without handing over a key", "stays")
    def setup(I, st, args):
        box["m"] = Monitor(rep, "access", name, I, hook)
        serde.put(st, "start")
    I, outs = R.run(key, views={base + ("0",): {kind + "Item"}, base: {kind + "Item"}}, setup=setup)
    if I.failed:
        rep.undecided("access", name + ": " + str(I.failed)); return
    M = box["m"]
    def none(I, st, good, pay):
        if m == "next_value_seed":
            val = None if good else True
            M.ver(val, "none", "", "no key was read")
            return
        o = lib.opt(I, st, pay) if good else "err"
        if o == "err":
            M.bad("refused", "fails without asking the receiver"); return
        if o is not None:
            M.und("result"); return
        M.ver(lib.le(st, I.length(st, base), C(0)), "none", "can end although entries remain", "end")
    finish(rep, M, I, outs, name, none)

def size(rep, p, R, ty, tr, m, key):
    """The announced number of entries must be the number that remains."""
    kind = "Mapping" if tr == "MapAccess" else "Sequence"
    I, outs = R.run(key)
    if I.failed or not outs:
        rep.undecided("access", ty + "::" + m); return
    for st, v in outs:
        o = lib.opt(I, st, v)
        if o is None:
            rep.ok("access", "not announced"); continue
        ok = None
        if is_int(o) and not st.taint:
            w = I.origin.get(mono(o) or -1) if o[1] == 0 else None
            ok = w is not None and w[0] == "len" and w[1][:2] == ("a0", "*") or (None if w is None else False)
        lib.verdict(rep, "access", ok, ty + "::" + m, "", "announced length")

def run():
    rep = Report("C11", "other", "abstract interpretation of the Deserializer, MapAccess and SeqAccess implementations with an event automaton",
        "Every request (deserialize_any, deserialize_u8, ...) is interpreted on a symbolic value of every kind, with a receiver of which nothing is known. On every path the receiver must be asked exactly once, "
        "in the form the request and the kind of the value call for, with the value's own content, and its answer must be the result. A request that comes back to itself for the same value on a feasible path is a violation. "
        "The accesses handed to the receiver must start with all entries; each step must hand over the next key with the value kept for it, or the next element.",
        ["receivers (visitors, seeds) do not request the same value without end", "lexical-core parses exactly (C31 is not claimed)"])
    p = ir.load("all")
    api = lib.api(p)
    R = lib.Runner(p)
    fld = serde.content_field(p, R)
    hs = serde.hints(p, R)
    n = 0
    others = {}
    acc = []
    for (ty, tr, m), key in sorted(api.items(), key=str):
        if tr == "Deserializer" and m.startswith("deserialize_"):
            if ty in lib.VIEWS:
                n += 1
                value_method(rep, p, R, m, key, hs, fld)
            else:
                others.setdefault(ty, []).append((m, key))
        elif tr == "Deserializer" and m != "type Error":
            rep.undecided("request", "%s::%s" % (ty, m))
        elif tr in ("MapAccess", "SeqAccess"):
            acc.append((ty, tr, m, key))
    rep.floor("anchors", "requests a value answers", n, 30)
    for ty, ms in sorted(others.items()):
        for m, key in ms:
            key_method(rep, p, R, ty, m, key)
    for ty, tr, m, key in acc:
        if m in ("next_key_seed", "next_value_seed", "next_element_seed"):
            access(rep, p, R, ty, tr, m, key, set(others))
        elif m == "size_hint":
            size(rep, p, R, ty, tr, m, key)
        else:
            rep.undecided("access", "%s::%s is overridden" % (ty, m))
    for (ty, tr, m), key in sorted(api.items(), key=str):
        if tr == "IntoDeserializer" and m == "into_deserializer":
            start(rep, p, R, ty, key)
    return rep

def start(rep, p, R, ty, key):
    name = ty + "::into_deserializer"
    I, outs = R.run(key, views=lib.self_views(None))
    if I.failed or not outs:
        rep.undecided("start", name); return
    for st, v in outs:
        d = lib.describe(I, st, v)
        if st.taint or not d or d[0] != "view" or d[2] is None:
            rep.undecided("start", name); continue
        if ty.endswith("Document"):
            o = I.origin.get(mono(d[2]) or -1)
            ok = None if o is None else o[:2] == ("a0", "*") and "root" in o
        else:
            ok = same_node(I, st, v, lib.self_id(I, st))
        lib.verdict(rep, "start", ok, name, name + " starts at another value", name)
