"""C22: safe API (no unsafe code, no unchecked text, exclusive edits)."""
import re
from .. import ir, types, witness
from ..report import Report

UNCHECKED = re.compile(r"unchecked|transmute|MaybeUninit|from_raw|ManuallyDrop|mem::forget|Box.*::leak|Vec.*::leak|String.*::leak|mem::zeroed|copy_nonoverlapping")

def run():
    rep = Report("C22", "other", "absence of unsafe code in the syntax tree and call graph, plus compile-fail witnesses",
        "Every block, function, impl, trait and extern item of the crate is inspected for `unsafe`; every call site for operations that skip checks or leak; every public type "
        "that can edit holds an exclusive reference; and programs that would keep a view across an edit are compiled against the crate and must be rejected by the borrow checker, "
        "each next to a twin that compiles.", ["the Rust type system and borrow checker", "safe dependencies are sound"])
    for fs in ("core", "all"):
        p = ir.load(fs)
        for f, file, line in p.d["unsafe_blocks"]:
            rep.bad("no-unsafe", types.short(f), "%s (%s:%s) contains an unsafe block" % (f, file, line))
        nf = nc = 0
        for it in p.items:
            if it.get("unsafe") and not (it.get("derived") and it.get("trait") == "std::clone::TrivialClone"):
                rep.bad("no-unsafe", types.short(it["path"]), "%s (%s:%s) is declared unsafe" % (it["path"], it["file"], it["line"]))
            if it["kind"] in ("ForeignMod", "Union") or it["kind"].startswith("Static") and it.get("mut"):
                rep.bad("no-unsafe", types.short(it["path"]), "%s (%s:%s) is a %s" % (it["path"], it["file"], it["line"], it["kind"]))
            for a in it["attrs"]:
                if a[0] in ("NoMangle", "ExportName", "LinkSection"):
                    rep.bad("no-unsafe", types.short(it["path"]), "%s has attribute %s" % (it["path"], a[0]))
        for key, f in p.fns.items():
            if f.get("failed") or not f.get("local"): continue
            nf += 1
            bad = False
            for _, t in p.calls(f):
                nc += 1
                c = t[1].get("rpath") or t[1].get("path") or ""
                if UNCHECKED.search(c) and not t[8]:
                    rep.bad("no-unchecked-calls", "%s:%s" % (types.short(f["path"]), c), "%s (%s:%s) calls %s" % (f["path"], f["file"], t[5], c)); bad = True
            if not bad: rep.ok("no-unchecked-calls", types.short(f["path"]))
        rep.ok("no-unsafe", "%d items, %d unsafe blocks in configuration %s" % (len(p.items), len(p.d["unsafe_blocks"]), fs))
        rep.count("functions (%s)" % fs, nf); rep.count("call sites (%s)" % fs, nc); rep.count("items (%s)" % fs, len(p.items))
        rep.floor("anchors", "functions analysed in configuration " + fs, nf, {"core": 300, "all": 600}[fs])
        # editing types own their access exclusively; reading types hold shared references only
        for it in types.local_adts(p):
            if not it["pub"]: continue
            base = it["path"].split("::")[-1]
            t = p.types[it["ty"]]
            found = [x for x in types.shared_mutability(p, it["ty"])]
            rep.check("exclusive-views", not found, types.short(it["path"]) + "@" + fs, "%s contains %s" % (it["path"], found[0][0] if found else ""))
    witness.run(rep)
    rep.floor("anchors", "witness programs compiled", rep.counts.get("witness programs", 0), 2 * len(witness.W))
    return rep
