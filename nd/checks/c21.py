"""C21: optional features do not change core behaviour (comparison of the compiled bodies of two configurations)."""
from .. import ir, norm, types
from ..report import Report

def run():
    rep = Report("C21", "other", "comparison of the type-checked bodies of every function between feature configurations",
        "The crate is compiled with no serialization feature and with each combination of the two features. Every function of the configuration without features must be "
        "present in every other one with the same control flow, calls, constants and operations; only the recorded number type (which exists for serialization alone) may differ. "
        "Types, their fields and variants, statics and public items must also be the same.",
        ["external crates behave the same with their serde features on"])
    core = ir.load("core")
    cf = fns(core)
    rep.floor("anchors", "functions compared", len(cf), 300)
    for fs in ("serde", "edits", "all"):
        p = ir.load(fs)
        pf = fns(p)
        for key, f in sorted(cf.items()):
            name = types.short(key)
            if hint(core, f):
                continue
            g = pf.get(key)
            if g is None:
                rep.bad("same-functions", name + "@" + fs, "%s (%s:%s) does not exist with features %s" % (key, f["file"], f["line"], fs)); continue
            a, b = norm.norm_body(core, f), norm.norm_body(p, g)
            rep.check("same-bodies", a == b, name + "@" + fs, "%s (%s:%s) is compiled differently with features %s: %s" % (key, f["file"], f["line"], fs, diff(a, b)))
        ca, pa = adts(core), adts(p)
        for path, sig in sorted(ca.items()):
            if path.endswith("RawNumberHint"): continue
            rep.check("same-types", pa.get(path) == sig, types.short(path) + "@" + fs, "type %s differs with features %s" % (path, fs))
        pubs = {(i["path"], i["kind"]) for i in core.items if i["pub"]}
        pp = {(i["path"], i["kind"]) for i in p.items if i["pub"]}
        for x in sorted(pubs):
            rep.check("same-api", x in pp, types.short(x[0]) + "@" + fs, "public item %s is missing with features %s" % (x[0], fs))
        # features only add: implementations of foreign traits other than serialization must not appear
        ci, pi = impls(core), impls(p)
        for x in sorted(pi - ci):
            tr = x[1]
            if tr and not tr.startswith(("serde", "serde_core")) and tr.split("::")[-1] in ("Drop", "Deref", "DerefMut", "PartialEq", "Ord", "PartialOrd", "Hash", "Display", "Write", "Iterator", "Clone", "Default") and base(x[0]) in {base(a) for a, _ in ci} and not x[0].endswith("RawNumberHint"):
                rep.bad("same-impls", "%s:%s@%s" % (x[0], tr, fs), "%s implements %s only with features %s" % (x[0], tr, fs))
    return rep

def base(s):
    return s.split("<")[0]

def impls(p):
    return {(i["self"], i.get("trait") or "") for i in p.items if i["kind"].startswith("Impl")}

def fns(p):
    return {k: f for k, f in p.fns.items() if f.get("local") and not f.get("failed") and not f.get("shim") and "@" not in k}

def hint(p, f):
    return "RawNumberHint as" in f["path"] or f["path"].startswith("<nondestructive::yaml::serde_hint")

def adts(p):
    out = {}
    for it in types.local_adts(p):
        out[it["path"]] = tuple((v["name"], tuple((f[0], f[1]) for f in v["fields"])) for v in it["variants"])
    return out

def diff(a, b):
    if a[0] != b[0]:
        return "its local variables differ"
    for i, (x, y) in enumerate(zip(a[2:], b[2:])):
        if x != y:
            if x and y:
                for s, t in zip(x[0], y[0]):
                    if s != t: return "%s / %s" % (str(s)[:160], str(t)[:160])
                return "%s / %s" % (str(x[1])[:200], str(y[1])[:200])
            return "block %d" % i
    return "its control flow differs"
