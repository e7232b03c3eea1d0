"""C19: cloned documents are independent (ownership analysis of the cloneable types)."""
from .. import ir, types
from ..report import Report

def run():
    rep = Report("C19", "other", "ownership analysis of types plus inspection of every Clone implementation",
        "Every type reachable from Document and Parser is walked through its fields: none may be a shared owner (Rc, Arc), a raw pointer, a cell or a mutable "
        "reference, so a clone can only own copies. Every Clone implementation of those types is the derived one, or a hand-written one whose interpretation clones each field.",
        ["Clone of Vec, Box, HashMap, BTreeMap and slab::Slab copies all entries (slab keeps the keys)"])
    for fs in ("core", "all"):
        p = ir.load(fs)
        impls = {}
        for it in p.items:
            if it["kind"].startswith("Impl") and it.get("trait") == "std::clone::Clone":
                impls[it["path"]] = it
        roots = [it for it in types.local_adts(p) if it["path"].endswith(("yaml::Document", "document::Document", "parsing::Parser"))]
        rep.floor("anchors", "cloneable root types in configuration " + fs, len(roots), 2)
        reach = {}
        todo = [it["ty"] for it in roots]
        while todo:
            ti = todo.pop()
            if ti in reach: continue
            reach[ti] = 1
            t = p.types[ti]
            if t["k"] == "adt":
                if "v" in t and t.get("local"):
                    for v in t["v"]:
                        todo += [ft for _, ft in v["f"]]
                else:
                    todo += t["args"]
            elif t["k"] in ("slice", "array"): todo.append(t["e"])
            elif t["k"] == "tuple": todo += t["f"]
        for it in roots:
            found = list(types.shared_mutability(p, it["ty"]))
            rep.check("owns-everything", not found, types.short(it["path"]) + "@" + fs, "%s holds %s, which a clone would share" % (it["path"], found[0][0] if found else ""))
        for ti in reach:
            t = p.types[ti]
            if t["k"] == "ref" and t.get("mut"):
                rep.bad("owns-everything", t["s"], "a mutable reference %s is reachable from a document" % t["s"])
            elif t["k"] == "adt" and t.get("local"):
                its = [it for it in types.local_adts(p) if it["ty"] == ti]
                cl = [f for f in p.fns.values() if not f.get("failed") and f.get("local") and f["path"].endswith("as std::clone::Clone>::clone") and f["locals"][0] == ti]
                items = [i for i in p.items if i["kind"] == "AssocFn" and i.get("itrait") == "std::clone::Clone" and i.get("output") == ti]
                if not cl:
                    rep.ok("owns-everything", t["s"]); continue
                derived = any(i.get("derived") for i in items)
                if derived:
                    rep.ok("clone-derived", t["s"])
                else:
                    verdict = clone_copies_all(p, cl[0])
                    if verdict is None:
                        rep.undecided("clone-copies-all", t["s"])
                    else:
                        rep.check("clone-copies-all", verdict == "", t["s"], "hand-written Clone of %s (%s:%s): %s" % (t["s"], cl[0]["file"], cl[0]["line"], verdict))
        rep.count("types reachable (%s)" % fs, len(reach))
    return rep

def clone_copies_all(p, f):
    """'' if the result of a clone body equals self, a description of the difference otherwise, None if not decided."""
    from .. import lib
    return lib.clone_verdict(p, f)
