"""C18: results depend only on the input (effect and call-graph analysis of the whole crate)."""
import re
from .. import ir, types
from ..report import Report

# Calls whose result is not a function of the arguments.
SOURCES = [
    (r"^std::(time|env|process|thread|fs|net|os|sync|random)\b", "reads the environment, time, threads, files or shared state"),
    (r"^<std::time::|^<std::thread|^<std::(sync|fs|net)::", "reads time, threads, files or shared state"),
    (r"^std::io::(stdin|stdout|stderr|_print|_eprint|Stdin|Stdout|Stderr)", "process-wide input or output"),
    (r"RandomState.*(hash_one|build_hasher)|BuildHasher::(hash_one|build_hasher)|^std::hash::(RandomState|DefaultHasher)|^std::collections::hash_map::(RandomState|DefaultHasher)", "randomly seeded hash"),
    (r"^(rand|getrandom|fastrand|uuid|chrono)::", "randomness or time"),
    (r"addr_of|::expose_provenance|::addr$|fmt::Pointer|new_pointer", "address of a value"),
    (r"ptr::(read|write)_volatile|atomic", "shared memory"),
    (r"thread_local|LocalKey", "per-thread state"),
    (r"type_name|type_id", "implementation-defined identity"),
]
# Operations that expose the order of a hash table.
ORDER = re.compile(r"^(<&('\w+ )?(mut )?)?(std::collections::|hashbrown::)(hash_map::|hash_set::)?(HashMap|HashSet)\b.*::(iter|iter_mut|keys|values|values_mut|into_keys|into_values|drain|retain|extract_if|into_iter|eq|fmt)$"
                   r"|^<(&'?\w* ?(mut )?)?std::collections::(hash_map::\w+|HashMap|HashSet)<.*(IntoIterator>::into_iter|Iterator>::\w+|PartialEq>::\w+|Debug>::fmt|Serialize>::serialize)"
                   r"|serde.*impl .*Serialize for std::collections::Hash(Map|Set)")

def callee(t):
    c = t[1]
    return c.get("rpath") or c.get("path") or c.get("kind")

def run():
    rep = Report("C18", "other", "effect and call-graph analysis over the type-checked program",
        "For every feature set, every call site of every function of the crate (including generated code, and the bodies of library code inlined by the dump) is "
        "resolved and compared with the catalogue of operations whose result is not determined by their arguments and of operations exposing hash order; every static, "
        "thread-local and type is inspected for mutable shared state; pointer-to-integer conversions are searched for.",
        ["external crates (slab, bstr, memchr, itoa, ryu, lexical-core, twox-hash with its fixed default seed) are functions of their arguments",
         "std::collections::HashMap get/entry/insert results do not depend on iteration order"])
    for fs in ("core", "all"):
        p = ir.load(fs)
        nf = ncall = 0
        for key, f in p.fns.items():
            if f.get("failed") or not f.get("local"):
                continue
            nf += 1
            name = types.short(f["path"])
            clean = True
            for _, t in p.calls(f):
                ncall += 1
                c = callee(t) or ""
                full = t[1].get("full") or c
                for rx, why in SOURCES:
                    if re.search(rx, c):
                        rep.bad("no-hidden-input", "%s:%s" % (name, c), "%s (%s:%s) calls %s: %s" % (name, f["file"], t[5], c, why)); clean = False
                if ORDER.search(c) or ORDER.search(full):
                    rep.bad("no-hash-order", "%s:%s" % (name, c), "%s (%s:%s) calls %s, whose result depends on hash table order" % (name, f["file"], t[5], c)); clean = False
                else:
                    # a hash table handed to generic code that walks it
                    sn = t[1].get("sname", "")
                    if t[1].get("trait") in ("std::iter::IntoIterator", "std::iter::Iterator", "std::iter::Extend", "std::iter::FromIterator") or sn in ("serialize", "collect_map", "collect_seq") or sn.startswith("serialize_"):
                        for a in t[1].get("args", []):
                            pa = p.types[p.peel(a)]
                            if pa["k"] == "adt" and re.search(r"hash_map::(Iter|Keys|Values|Drain|IntoIter|IterMut|ValuesMut)|collections::Hash(Map|Set)$|hash_set::", pa["path"]):
                                rep.bad("no-hash-order", "%s:%s" % (name, sn), "%s (%s:%s) walks %s in hash order" % (name, f["file"], t[5], pa["s"])); clean = False
                            elif sn.startswith("serialize") and re.search(r"\bHash(Map|Set)<", pa["s"]):
                                rep.bad("no-hash-order", "%s:%s" % (name, sn), "%s (%s:%s) serializes %s in hash order" % (name, f["file"], t[5], pa["s"])); clean = False
            for b in f["bbs"]:
                if not b: continue
                for st in b[0]:
                    if st[0] == "=" and st[2][0] == "cast" and ("PointerExpose" in st[2][1] or (st[2][1] == "Transmute" and p.types[st[2][4]]["k"] in ("ptr", "ref") and p.types[st[2][3]]["k"] in ("uint", "int"))):
                        rep.bad("no-addresses", name, "%s (%s:%s) turns a pointer into an integer" % (name, f["file"], st[3])); clean = False
            if clean:
                rep.ok("functions-pure", name)
        rep.count("functions (%s)" % fs, nf); rep.count("call sites (%s)" % fs, ncall)
        rep.floor("anchors", "functions analysed in configuration " + fs, nf, {"core": 300, "all": 600}[fs])
        # statics
        for it in p.items:
            if it["kind"].startswith("Static"):
                bad = it.get("mut") or any(True for _ in types.shared_mutability(p, it["ty"]))
                rep.check("no-global-state", not bad, types.short(it["path"]), "static %s (%s:%s) is mutable shared state" % (it["path"], it["file"], it["line"]))
        # types
        n = 0
        for it in types.local_adts(p):
            n += 1
            found = list(types.shared_mutability(p, it["ty"]))
            found = [x for x in found if x[1] != "trait object"]
            rep.check("no-interior-mutability", not found, types.short(it["path"]),
                      "%s (%s:%s) contains %s: a shared reference can change it" % (it["path"], it["file"], it["line"], found[0][0] if found else ""))
        rep.count("types (%s)" % fs, n)
    return rep
