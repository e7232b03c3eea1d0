"""C20: saved documents restore completely (symmetry of the generated snapshot code)."""
import re
from .. import ir, types
from ..report import Report

LOSSLESS_IF = {"Vec::is_empty", "Option::is_none", "String::is_empty", "str::is_empty", "HashMap::is_empty", "BTreeMap::is_empty"}

def parse_attr(snip):
    """[(word, value)] of a serde(...) attribute."""
    m = re.search(r"serde\s*\((.*)\)\s*\]?\s*$", snip, re.S)
    body = m.group(1) if m else snip
    out, depth, cur = [], 0, ""
    for ch in body + ",":
        if ch == "," and depth == 0:
            w = cur.strip()
            if w:
                k, _, v = w.partition("=")
                if "(" in k:
                    k = w.split("(")[0]; v = w[len(k):]
                out.append((k.strip(), v.strip().strip('"')))
            cur = ""
            continue
        depth += ch == "("; depth -= ch == ")"
        cur += ch
    return out

def run():
    rep = Report("C20", "other", "reachability over types and symmetry of derived snapshot implementations and their attributes",
        "Every type reachable from Document has both Serialize and Deserialize generated by serde's derive from the same field list, and every serde attribute on "
        "it, its variants and its fields is one that affects both directions alike; attributes that skip, default, rename for one direction, or merge variants break the property.",
        ["serde's derive writes and reads every field and variant that no attribute exempts", "serde implementations of Vec, Box, HashMap/BTreeMap, Option, arrays, NonZero and slab::Slab are lossless"])
    for fs in ("edits", "all"):
        p = ir.load(fs)
        byty = {it["ty"]: it for it in types.local_adts(p)}
        roots = [it for it in byty.values() if it["path"].endswith("document::Document") or it["path"] == "nondestructive::yaml::Document"]
        rep.floor("anchors", "document types in configuration " + fs, len(roots), 1)
        seen, todo = set(), [it["ty"] for it in roots]
        while todo:
            ti = todo.pop()
            if ti in seen: continue
            seen.add(ti)
            t = p.types[ti]
            if t["k"] == "adt":
                if t.get("local"):
                    for v in t.get("v", []): todo += [ft for _, ft in v["f"]]
                else: todo += t["args"]
            elif t["k"] in ("slice", "array"): todo.append(t["e"])
            elif t["k"] == "tuple": todo += t["f"]
        n = 0
        for ti in sorted(seen):
            t = p.types[ti]
            if t["k"] in ("ref", "ptr", "fnptr", "dyn"):
                rep.bad("restorable-types", t["s"], "a document holds %s, which a snapshot cannot restore" % t["s"]); continue
            if t["k"] != "adt": continue
            if t["path"].endswith("PhantomData") :
                rep.bad("restorable-types", t["s"], "a document holds %s" % t["s"]); continue
            if not t.get("local"): continue
            n += 1
            it = byty[ti]; name = types.short(it["path"])
            def derived(trait):
                i = [x for x in p.items if x["kind"] == "AssocFn" and (x.get("itrait") or "").endswith("::" + trait) and p_self(x) == it["path"].replace("nondestructive::", "")]
                return i
            for trait, meth in (("Serialize", "serialize"), ("Deserialize", "deserialize")):
                i = [x for x in p.items if x["kind"] == "AssocFn" and re.search(r"(^|::)%s$" % trait, x.get("itrait") or "") and x["path"].endswith("::" + meth)
                     and re.sub(r"<.*$", "", x.get("impl") or "") == name]
                if not i:
                    rep.bad("both-directions", "%s:%s@%s" % (name, trait, fs), "%s (%s:%s) is part of a document but has no %s implementation" % (it["path"], it["file"], it["line"], trait))
                elif any(x.get("derived") for x in i):
                    rep.ok("both-directions", "%s: %s derived" % (name, trait))
                else:
                    rep.undecided("both-directions", "%s: hand-written %s" % (name, trait))
            attrs(rep, name, it, fs)
        rep.count("snapshot types (%s)" % fs, n)
        rep.floor("anchors", "snapshot types in configuration " + fs, n, 14)
    return rep

def p_self(x):
    return x.get("impl")

def attrs(rep, name, it, fs):
    allow_container = {"tag", "content", "transparent", "rename_all", "rename", "crate", "bound", "deny_unknown_fields", "expecting", "rename_all_fields"}
    def walk(list_, where, level):
        words = []
        for a in list_:
            if a[0] == "serde":
                words += parse_attr(a[1])
        d = dict(words)
        for k, v in words:
            key = "%s:%s@%s" % (where, k, fs)
            bad = None
            if k in ("skip", "skip_serializing", "skip_deserializing"):
                bad = "is left out of the snapshot"
            elif k == "skip_serializing_if":
                short = "::".join(v.split("::")[-2:])
                short = re.sub(r"<.*?>", "", short)
                if short not in LOSSLESS_IF or d.get("default", None) != "":
                    bad = "is left out of the snapshot when %s" % v
            elif k == "untagged":
                bad = "loses the variant"
            elif k == "other":
                bad = "maps unknown variants to this one"
            elif k in ("rename", "rename_all") and v.startswith("("):
                inner = dict(parse_attr("serde" + v))
                if inner.get("serialize") != inner.get("deserialize"):
                    bad = "is written and read under different names"
            elif k in ("with", "serialize_with", "deserialize_with", "from", "into", "try_from", "remote", "getter", "borrow", "flatten"):
                rep.undecided("symmetric-attributes", "%s uses serde(%s)" % (where, k)); continue
            if bad:
                rep.bad("symmetric-attributes", key, "%s (%s:%s): serde(%s) %s" % (where, it["file"], it["line"], k, bad))
            else:
                rep.ok("symmetric-attributes", "%s: %s" % (where, k))
    walk(it["attrs"], name, "container")
    for v in it["variants"]:
        if it["kind"] == "Enum":
            walk(v.get("attrs") or [], name + "::" + v["name"], "variant")
        names = []
        for f in v["fields"]:
            walk((f[3] if len(f) > 3 else None) or [], "%s.%s" % (name if it["kind"] != "Enum" else name + "::" + v["name"], f[0]), "field")
            ren = [dict(parse_attr(a[1])).get("rename") for a in ((f[3] if len(f) > 3 else None) or []) if a[0] == "serde"]
            names.append(next((r for r in ren if r), f[0]))
        rep.check("distinct-names", len(set(names)) == len(names), name + "::" + v["name"] + "@" + fs, "two fields of %s share a name in the snapshot" % name)
        rep.ok("fields-covered", "%s::%s has %d fields" % (name, v["name"], len(names)))
    if it["kind"] == "Enum":
        names = []
        for v in it["variants"]:
            ren = [dict(parse_attr(a[1])).get("rename") for a in (v.get("attrs") or []) if a[0] == "serde"]
            names.append(next((r for r in ren if r), v["name"]))
        rep.check("distinct-names", len(set(names)) == len(names), name + "@" + fs, "two variants of %s share a name in the snapshot" % name)
