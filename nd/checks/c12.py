"""C12: serialization writes every element in the form of its kind."""
from .. import ir, lib, serde
from ..dom import *
from ..interp import UNIT
from ..report import Report

FORM = {"Null": {"serialize_none", "serialize_unit"}, "Boolean": {"serialize_bool"}, "String": {"serialize_str", "serialize_bytes"},
        "Sequence": {"serialize_seq"}, "Mapping": {"serialize_map"}}
SERR = ("obj", "sererr")

class Monitor:
    """Follows the calls of the foreign serializer on one path."""
    def __init__(self, rep, name, I, kind, hs, fld):
        self.rep, self.name, self.I, self.kind, self.hs, self.fld = rep, name, I, kind, hs, fld
        self.keys = set()
        I.on_call = self.on_call
        self.calls = 0

    def bad(self, key, text):
        self.rep.bad("events", self.name + "/" + key, self.name + " " + text)

    def und(self, text):
        self.rep.undecided("events", self.name + ": " + text)

    def ok(self, text):
        self.rep.ok("events", self.name + ": " + text)

    def ver(self, ok, key, text, sample):
        if ok is None: self.und(key)
        elif ok: self.ok(sample)
        else: self.bad(key, text)

    def idx(self, st):
        sid = lib.self_id(self.I, st)
        return addc(sid, -1) if sid is not None else None

    def on_call(self, I, st, cal, args, atys, dty, caller, line):
        tr = (cal.get("trait") or "").replace("serde_core::", "serde::")
        if cal.get("kind") != "unresolved" or tr.split("::")[-1] not in ("Serializer", "SerializeSeq", "SerializeMap", "Error") or "serde" not in tr:
            return None
        m = cal["path"].split("::")[-1]
        if tr.endswith("Error"):
            return [(st, ("obj", "sercustom"))]
        t = I.p.types[dty] if dty is not None else {}
        if not t.get("path", "").endswith("::Result"):
            return None
        cur = serde.get(st)
        if st.taint or cur is None or cur[0] != "obj" or cur[2] == "UNK":
            return self.done(I, st, dty, "UNK")
        self.calls += 1
        pc, k = cur[2], cur[3]
        for a in args[1:]:
            lib.describe(I, st, a)
        x = self.idx(st)
        if pc in ("err", "done"):
            self.bad("order", "calls the serializer again after it has %s" % ("reported an error" if pc == "err" else "finished"))
            return self.done(I, st, dty, "UNK")
        if pc == "start":
            if tr.endswith("::Serializer"):
                return self.first(I, st, m, args, dty, x)
            self.und(m + " without a serializer"); return self.done(I, st, dty, "UNK")
        name = ("E", x, "raw", self.kind_of(st, x), "0", "items")
        n = I.length(st, name)
        if pc == "seq" and m == "serialize_element":
            at = serde.element(I, st, args[1], name)
            self.ver(None if at is None else at is not False and lib.eq(st, at, k), "element", "does not write the elements one by one in order", "element k")
            return self.step(I, st, dty, "seq", addc(k, 1))
        if pc == "map" and m in ("serialize_entry", "serialize_key"):
            self.key(I, st, args[1], name, k, atys[1])
            if m == "serialize_key":
                return self.step(I, st, dty, "mapv", k)
            at = serde.element(I, st, args[2], name)
            self.ver(None if at is None else at is not False and lib.eq(st, at, k), "value", "does not write the value that belongs to the key", "value k")
            return self.step(I, st, dty, "map", addc(k, 1))
        if pc == "mapv" and m == "serialize_value":
            at = serde.element(I, st, args[1], name)
            self.ver(None if at is None else at is not False and lib.eq(st, at, k), "value", "does not write the value that belongs to the key", "value k")
            return self.step(I, st, dty, "map", addc(k, 1))
        if pc in ("seq", "map") and m == "end":
            self.ver(True if st.F.eq(k, n) else False if lib.rigid(k) or st.F.le(addc(k, 1), n) or not st.taint else None, "complete", "can finish before every element is written", "end after all elements")
            return self.done(I, st, dty, "done")
        self.bad("protocol", "calls %s where %s is expected" % (m, {"seq": "an element", "map": "an entry", "mapv": "a value"}[pc]))
        return self.done(I, st, dty, "UNK")

    def is_bytes(self, I, ti):
        t = I.p.types[ti] if ti is not None else {"k": "?"}
        while t["k"] == "ref":
            t = I.p.types[t["e"]]
        return t["k"] in ("slice", "array") or t.get("path") in ("bstr::BStr", "bstr::BString", "std::vec::Vec")

    def key(self, I, st, v, name, k, aty):
        at = serde.key_place(I, st, v, name)
        if at is False:
            self.bad("key", "writes something else than the complete key of the entry"); return
        self.ver(None if at is None else lib.eq(st, at[0], k), "key", "does not write the keys one by one in order", "key k")
        if at:
            self.keys.add(at[1])
            if self.is_bytes(I, aty):
                self.ver(serde.utf8_failed(st) or False, "key/bytes", "writes a key as bytes although it may be text", "bytes when not UTF-8")

    def kind_of(self, st, x):
        return self.kind or self.I.vname(st, x)

    def first(self, I, st, m, args, dty, x):
        if x is None:
            self.und("value"); return self.done(I, st, dty, "UNK")
        kind = self.kind_of(st, x)
        if kind is None:
            self.bad("blind", "serializes without looking at the kind of the value"); return self.done(I, st, dty, "UNK")
        if kind == "Number":
            t = m.replace("serialize_", "")
            if t not in serde.INTS:
                self.bad("Number", "serializes a number by %s" % m); return self.done(I, st, dty, "UNK")
            ok, why = serde.number(I, st, args[1], x, t, self.hs)
            self.ver(ok, "number/" + t, "serializes as %s %s" % (t, why), "%s as %s" % (why, t))
            return self.done(I, st, dty, "done")
        base = ("E", x, "raw", kind, "0")
        if m not in FORM.get(kind, ()):
            if m in ("collect_seq", "collect_map") and kind == {"collect_seq": "Sequence", "collect_map": "Mapping"}[m]:
                self.ver(self.all_of(I, st, args[1], base + ("items",)), kind + "/collect", "does not hand over the container itself", kind + " as a whole")
                return self.done(I, st, dty, "done")
            if m.startswith("collect_"):
                self.und(m); return self.done(I, st, dty, "UNK")
            self.bad(kind, "serializes a %s by %s" % (kind, m)); return self.done(I, st, dty, "UNK")
        if kind == "Boolean":
            d = lib.describe(I, st, args[1])
            self.ver(serde.flag(I, st, d, x), "Boolean/value", "does not serialize the stored truth value", "Boolean")
        elif kind == "String":
            ok = serde.stored_text(I, st, args[1], base + (self.fld,))
            self.ver(ok, "String/text", "does not serialize the complete content of the string", "String")
            if m == "serialize_bytes":
                # only text that is not UTF-8
                self.ver(serde.utf8_failed(st) or False, "String/bytes", "serializes a string as bytes although it may be text", "bytes when not UTF-8")
        elif kind in ("Sequence", "Mapping"):
            o = lib.opt(I, st, args[1])
            n = I.length(st, base + ("items",))
            ok = False if o is None else None if o == "bad" or not is_int(o) else lib.eq(st, o, n)
            self.ver(ok, kind + "/length", "does not announce the number of elements", kind + " length")
            return self.step(I, st, dty, "seq" if kind == "Sequence" else "map", C(0), ("obj", "serobj"))
        else:
            self.ok(kind)
        return self.done(I, st, dty, "done")

    def all_of(self, I, st, v, name):
        """A view of the container (whose iteration is the subject of C13), or an iterator over all of it."""
        d = lib.describe(I, st, v)
        x = self.idx(st)
        if d and d[0] == "view" and d[1] == self.kind_of(st, x):
            return lib.eq(st, d[2], addc(x, 1))
        it = serde.find_it(I, st, v)
        if it is None:
            return None
        sl = it[3]
        return len(sl[1]) == 1 and sl[1][0][0] == "sl" and sl[1][0][1] == name and st.F.eq(it[4], sl[1][0][2]) and st.F.eq(sl[1][0][2], C(0)) and st.F.eq(it[5], I.length(st, name)) and not it[2]

    def step(self, I, st, dty, pc, k, payload=UNIT):
        a, b = st, st.copy()
        serde.put(a, pc, k); serde.put(b, "err", C(0))
        return [(a, I.models.ok(dty, payload)), (b, I.models.err(dty, SERR))]

    def done(self, I, st, dty, pc):
        a, b = st, st.copy()
        serde.put(a, pc); serde.put(b, "err" if pc == "done" else pc)
        return [(a, I.models.ok(dty, ("obj", "serok", pc))), (b, I.models.err(dty, SERR))]

    def at_end(self, I, st, v):
        cur = serde.get(st)
        if st.taint:
            self.und(", ".join(sorted(st.taint))); return
        if cur[2] == "UNK":
            self.und("outcome"); return
        if v[0] == "sym":
            v = I.expand(st, v)
        if v[0] != "adt":
            self.und("result"); return
        good = I.variant(v) == "Ok"
        pay = v[3][0] if v[3] else None
        if cur[2] == "done":
            if not good:
                self.bad("result", "reports an error although the serializer has none")
            else:
                self.ver(pay[:2] == ("obj", "serok"), "result", "does not return what the serializer made", "result")
        elif cur[2] == "err":
            self.ver(not good and pay == SERR, "errors", "drops an error of the serializer", "error passed on")
        elif good:
            self.bad("unfinished", "returns before it has written the value")
        else:
            x = self.idx(st)
            kind = self.kind_of(st, x) if x is not None else None
            if kind == "Number":
                fl = {k[2] for k, r in st.F.eqs.items() if type(k) is tuple and k[0] == "parses" and r is False}
                self.ver("f64" in fl or "f32" in fl, "Number/refused", "refuses a number that may be readable", "unreadable number refused")
            elif kind in FORM:
                self.bad(kind + "/refused", "refuses a %s" % kind)
            else:
                self.ver(True if kind else None, "refused", "", "not a value")

def run():
    rep = Report("C12", "other", "abstract interpretation of the Serialize implementations with an event automaton",
        "Serialize of Value, Sequence and Mapping is interpreted on a symbolic value of every kind, with a serializer of which nothing is known but that each call may fail. "
        "Every call of the serializer must be the form of the value's kind and hand over the value's own content: the text read as the recorded number type, the stored flag, the complete string, "
        "the number of entries, and then each entry in order with its own key; 'end' only after the last entry. Every error of the serializer must be the result, with no further call.",
        ["lexical-core parses exactly (C31 is not claimed)"])
    p = ir.load("all")
    api = lib.api(p)
    R = lib.Runner(p)
    fld = serde.content_field(p, R)
    hs = serde.hints(p, R)
    n = 0
    keys = set()
    for (ty, tr, m), key in sorted(api.items(), key=str):
        if tr != "Serialize" or m != "serialize" or ty not in lib.VIEWS:
            continue
        if p.item.get(key, {}).get("derived"):
            continue
        kinds = lib.VIEWS[ty]
        name = ty + "::serialize"
        n += 1
        box = {}
        def setup(I, st, args):
            box["m"] = Monitor(rep, name, I, next(iter(kinds)) if kinds else None, hs, fld)
            serde.put(st, "start")
        s = None if kinds is None else set(kinds)
        I, outs = R.run(key, views={("a0", "id", "0"): s, ("a0", "*", "id", "0"): s}, setup=setup)
        if I.failed or not outs:
            rep.undecided("events", name + ": " + str(I.failed)); continue
        for q in I.panics:
            if q["taint"]:
                rep.undecided("events", name + ": panic " + q["msg"])
            else:
                rep.bad("events", name + "/panic", name + " can panic: " + q["msg"])
        for st, v in outs:
            box["m"].at_end(I, st, v)
            w = lib.changed(I, st)
            rep.check("readonly", not w, name, name + " writes to the document", name)
        keys |= box["m"].keys
        rep.count(name, box["m"].calls)
    rep.floor("anchors", "Serialize implementations of views", n, 3)
    lib.verdict(rep, "key", len(keys) < 2 or None, "fields", "", "one text of keys")
    return rep
