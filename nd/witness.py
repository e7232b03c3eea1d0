"""Compile-fail witnesses: small programs against the public API that must not type-check, each with a
compiling twin that differs only in the offending line. Only the compiler runs; no program is executed."""
import glob, hashlib, os, re, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
from . import extract

HEAD = "#![allow(unused, dropping_references, dropping_copy_types)]\nuse nondestructive::yaml::{self, *};\nfn doc() -> Document { yaml::from_slice(\"a: [1, 2]\\n\").unwrap() }\n"

# name, offending program body, twin body, accepted error codes
W = [
 ("value-outlives-edit", "let mut d = doc(); let v = d.as_ref(); d.as_mut().set_null(Null::Tilde); let _ = v.as_str();",
  "let mut d = doc(); let v = d.as_ref(); let _ = v.as_str(); d.as_mut().set_null(Null::Tilde);", {"E0502"}),
 ("str-outlives-edit", "let mut d = doc(); let s = d.as_ref().as_str(); d.as_mut().set_bool(true); let _ = s;",
  "let mut d = doc(); let s = d.as_ref().as_str(); let _ = s; d.as_mut().set_bool(true);", {"E0502"}),
 ("bstr-outlives-edit", "let mut d = doc(); let s = d.as_ref().as_bstr(); d.as_mut().set_bool(true); let _ = s;",
  "let mut d = doc(); let s = d.as_ref().as_bstr(); let _ = s; d.as_mut().set_bool(true);", {"E0502"}),
 ("mapping-outlives-edit", "let mut d = doc(); let m = d.as_ref().as_mapping().unwrap(); d.as_mut().set_bool(true); let _ = m.len();",
  "let mut d = doc(); let m = d.as_ref().as_mapping().unwrap(); let _ = m.len(); d.as_mut().set_bool(true);", {"E0502"}),
 ("sequence-outlives-edit", "let mut d = doc(); let m = d.as_ref().as_sequence().unwrap(); d.as_mut().set_bool(true); let _ = m.len();",
  "let mut d = doc(); let m = d.as_ref().as_sequence().unwrap(); let _ = m.len(); d.as_mut().set_bool(true);", {"E0502"}),
 ("number-outlives-edit", "let mut d = doc(); let v = d.as_ref(); let m = v.as_number().unwrap(); d.as_mut().set_bool(true); let _ = m.as_u32();",
  "let mut d = doc(); let v = d.as_ref(); let m = v.as_number().unwrap(); let _ = m.as_u32(); d.as_mut().set_bool(true);", {"E0502"}),
 ("any-outlives-edit", "let mut d = doc(); let m = d.as_ref().into_any(); d.as_mut().set_bool(true); drop(m);",
  "let mut d = doc(); let m = d.as_ref().into_any(); drop(m); d.as_mut().set_bool(true);", {"E0502"}),
 ("edit-during-mapping-iteration", "let mut d = doc(); let mut it = d.as_ref().as_mapping().unwrap().iter(); d.as_mut().set_bool(true); let _ = it.next();",
  "let mut d = doc(); let mut it = d.as_ref().as_mapping().unwrap().iter(); let _ = it.next(); d.as_mut().set_bool(true);", {"E0502"}),
 ("edit-during-sequence-iteration", "let mut d = doc(); let mut it = d.as_ref().as_sequence().unwrap().iter(); d.as_mut().set_bool(true); let _ = it.next();",
  "let mut d = doc(); let mut it = d.as_ref().as_sequence().unwrap().iter(); let _ = it.next(); d.as_mut().set_bool(true);", {"E0502"}),
 ("two-mutable-views", "let mut d = doc(); let mut a = d.as_mut(); let mut b = d.as_mut(); a.set_bool(true); b.set_bool(true);",
  "let mut d = doc(); let mut a = d.as_mut(); a.set_bool(true); let mut b = d.as_mut(); b.set_bool(true);", {"E0499"}),
 ("two-mutable-mappings", "let mut d = doc(); let mut v = d.as_mut(); let mut a = v.as_mapping_mut(); let mut b = v.as_mapping_mut(); drop(a); drop(b);",
  "let mut d = doc(); let mut v = d.as_mut(); let mut a = v.as_mapping_mut(); drop(a); let mut b = v.as_mapping_mut(); drop(b);", {"E0499"}),
 ("two-mutable-sequences", "let mut d = doc(); let mut v = d.as_mut(); let mut a = v.as_sequence_mut(); let mut b = v.as_sequence_mut(); drop(a); drop(b);",
  "let mut d = doc(); let mut v = d.as_mut(); let mut a = v.as_sequence_mut(); drop(a); let mut b = v.as_sequence_mut(); drop(b);", {"E0499"}),
 ("child-outlives-parent-edit-mapping", "let mut d = doc(); let mut m = d.as_mut().into_mapping_mut().unwrap(); let mut c = m.get_mut(\"a\").unwrap(); m.clear(); c.set_bool(true);",
  "let mut d = doc(); let mut m = d.as_mut().into_mapping_mut().unwrap(); let mut c = m.get_mut(\"a\").unwrap(); c.set_bool(true); m.clear();", {"E0499"}),
 ("child-outlives-parent-edit-sequence", "let mut d = doc(); let mut m = d.as_mut().make_sequence(); let mut c = m.get_mut(0).unwrap(); m.clear(); c.set_bool(true);",
  "let mut d = doc(); let mut m = d.as_mut().make_sequence(); let mut c = m.get_mut(0).unwrap(); c.set_bool(true); m.clear();", {"E0499"}),
 ("pushed-value-outlives-edit", "let mut d = doc(); let mut m = d.as_mut().make_sequence(); let mut c = m.push(Separator::Auto); m.push_bool(true); c.set_bool(true);",
  "let mut d = doc(); let mut m = d.as_mut().make_sequence(); let mut c = m.push(Separator::Auto); c.set_bool(true); m.push_bool(true);", {"E0499"}),
 ("inserted-value-outlives-edit", "let mut d = doc(); let mut m = d.as_mut().make_mapping(); let mut c = m.insert(\"k\", Separator::Auto); m.insert_bool(\"l\", true); c.set_bool(true);",
  "let mut d = doc(); let mut m = d.as_mut().make_mapping(); let mut c = m.insert(\"k\", Separator::Auto); c.set_bool(true); m.insert_bool(\"l\", true);", {"E0499"}),
 ("render-while-mutably-viewed", "let mut d = doc(); let mut v = d.as_mut(); let _ = d.to_string(); v.set_bool(true);",
  "let mut d = doc(); let mut v = d.as_mut(); v.set_bool(true); let _ = d.to_string();", {"E0502"}),
 ("value-outlives-document", "let v; { let d = doc(); v = d.as_ref(); } let _ = v.as_str();", "let v; let d = doc(); { v = d.as_ref(); } let _ = v.as_str();", {"E0597"}),
 ("view-outlives-document-by-id", "let v; { let d = doc(); v = d.value(d.as_ref().id()); } let _ = v.as_str();", "let v; let d = doc(); { v = d.value(d.as_ref().id()); } let _ = v.as_str();", {"E0597"}),
 ("iterator-outlives-document", "let mut v; { let d = doc(); v = d.as_ref().as_mapping().unwrap().iter(); } let _ = v.next();",
  "let mut v; let d = doc(); { v = d.as_ref().as_mapping().unwrap().iter(); } let _ = v.next();", {"E0597"}),
 ("key-outlives-document", "let k; { let d = doc(); k = d.as_ref().as_mapping().unwrap().iter().next().unwrap().0; } let _ = k.len();",
  "let k; let d = doc(); { k = d.as_ref().as_mapping().unwrap().iter().next().unwrap().0; } let _ = k.len();", {"E0597"}),
 ("mutable-view-outlives-document", "let mut v; { let mut d = doc(); v = d.as_mut(); } v.set_bool(true);", "let mut v; let mut d = doc(); { v = d.as_mut(); } v.set_bool(true);", {"E0597"}),
 ("edit-through-shared-document", "fn f(d: &Document) { d.as_mut().set_bool(true); }", "fn f(d: &mut Document) { d.as_mut().set_bool(true); }", {"E0596"}),
 ("edit-by-id-through-shared-document", "fn f(d: &Document, i: Id) { d.value_mut(i).set_bool(true); }", "fn f(d: &mut Document, i: Id) { d.value_mut(i).set_bool(true); }", {"E0596"}),
 ("edit-through-shared-mapping", "fn f(m: &MappingMut<'_>) { m.clear(); }", "fn f(m: &mut MappingMut<'_>) { m.clear(); }", {"E0596"}),
 ("edit-through-shared-sequence", "fn f(m: &SequenceMut<'_>) { m.remove(0); }", "fn f(m: &mut SequenceMut<'_>) { m.remove(0); }", {"E0596"}),
 ("edit-through-shared-value", "fn f(m: &ValueMut<'_>) { m.set_bool(true); }", "fn f(m: &mut ValueMut<'_>) { m.set_bool(true); }", {"E0596"}),
 ("mutable-view-is-not-copied", "fn f<'a>(v: ValueMut<'a>) -> (ValueMut<'a>, ValueMut<'a>) { let w = v; (v, w) }", "fn f<'a>(v: Value<'a>) -> Value<'a> { let w = v; w }", {"E0382"}),
 ("mutable-view-is-not-cloned", "fn c<T: Clone>(_: T) {} fn f(v: ValueMut<'_>) { c(v) }", "fn c<T: Clone>(_: T) {} fn f(v: Document) { c(v) }", {"E0277"}),
 ("mutable-mapping-is-not-cloned", "fn c<T: Clone>(_: T) {} fn f(v: MappingMut<'_>) { c(v) }", "fn c<T: Clone>(_: T) {} fn f(v: Document) { c(v) }", {"E0277"}),
 ("mutable-sequence-is-not-cloned", "fn c<T: Clone>(_: T) {} fn f(v: SequenceMut<'_>) { c(v) }", "fn c<T: Clone>(_: T) {} fn f(v: Document) { c(v) }", {"E0277"}),
 ("read-view-from-mutable-ends-before-edit", "let mut d = doc(); let mut v = d.as_mut(); let r = v.as_ref(); v.set_bool(true); let _ = r.as_str();",
  "let mut d = doc(); let mut v = d.as_mut(); let r = v.as_ref(); let _ = r.as_str(); v.set_bool(true);", {"E0502"}),
 ("mapping-read-view-ends-before-edit", "let mut d = doc(); let mut v = d.as_mut().make_mapping(); let r = v.as_ref(); v.clear(); let _ = r.len();",
  "let mut d = doc(); let mut v = d.as_mut().make_mapping(); let r = v.as_ref(); let _ = r.len(); v.clear();", {"E0502"}),
 ("sequence-read-view-ends-before-edit", "let mut d = doc(); let mut v = d.as_mut().make_sequence(); let r = v.as_ref(); v.clear(); let _ = r.len();",
  "let mut d = doc(); let mut v = d.as_mut().make_sequence(); let r = v.as_ref(); let _ = r.len(); v.clear();", {"E0502"}),
]

# traits that must hold: shared views and documents are Send and Sync when nothing is shared mutably
POSITIVE = [
 ("documents-are-send-and-sync", "fn s<T: Send + Sync>() {} s::<Document>(); s::<Value<'static>>(); s::<Mapping<'static>>(); s::<Sequence<'static>>(); s::<yaml::Error>();"),
]

def rmeta():
    """Metadata of the crate as compiled for the dump."""
    extract.dump("core")
    tgt = os.path.join(extract.BUILD, "witness-" + hashlib.sha256(extract.REPO.encode()).hexdigest()[:8])
    env = extract._env(); env["CARGO_TARGET_DIR"] = tgt; env["CARGO_INCREMENTAL"] = "0"
    rc, out = extract._run(["cargo", "+nightly", "check", "--offline", "--lib", "--manifest-path", os.path.join(extract.REPO, "Cargo.toml"), "--message-format=json"], env)
    if rc != 0:
        raise extract.ExtractError("cargo check failed:\n" + out[-2000:])
    import json
    m = None
    for l in out.splitlines():
        if l.startswith("{"):
            j = json.loads(l)
            if j.get("reason") == "compiler-artifact" and j["target"]["name"] == "nondestructive" and "lib" in j["target"]["kind"]:
                m = next((x for x in j["filenames"] if x.endswith(".rmeta")), m)
    if m is None:
        raise extract.ExtractError("no metadata of the crate was produced:\n" + out[-2000:])
    return m, [os.path.join(tgt, "debug", "deps")] + glob.glob(os.path.join(tgt, "debug", "build", "*", "*", "out"))

def compile_one(src, meta, deps, tmp, name):
    f = os.path.join(tmp, name + ".rs")
    with open(f, "w") as h: h.write(src)
    p = subprocess.run(["rustc", "+nightly", "--edition", "2021", "--crate-type", "lib", "--crate-name", "w", "--emit=metadata", "-o", os.path.join(tmp, name + ".rmeta"),
                        "--extern", "nondestructive=" + meta, f] + [a for d in deps for a in ("-L", "dependency=" + d)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=extract._env())
    return p.returncode, set(re.findall(r"error\[(E\d+)\]", p.stdout)), p.stdout

def run(rep):
    meta, deps = rmeta()
    tmp = tempfile.mkdtemp(prefix="ndw", dir=extract.BUILD)
    try:
        jobs = []
        with ThreadPoolExecutor(8) as ex:
            for name, bad, good, codes in W:
                wrap = lambda b: HEAD + "pub fn w() { " + b + " }\n"
                jobs.append((name, codes, ex.submit(compile_one, wrap(bad), meta, deps, tmp, name + "_bad"), ex.submit(compile_one, wrap(good), meta, deps, tmp, name + "_good")))
            pos = [(n, ex.submit(compile_one, HEAD + "pub fn w() { " + b + " }\n", meta, deps, tmp, n)) for n, b in POSITIVE]
            for name, codes, b, g in jobs:
                rc, cs, out = b.result(); rc2, cs2, out2 = g.result()
                rep.count("witness programs", 2)
                if rc2 != 0:
                    rep.undecided("compile-fail-witnesses", "twin of %s does not compile: %s" % (name, out2[:300].replace("\n", " | ")))
                elif rc == 0:
                    rep.bad("compile-fail-witnesses", name, "this program compiles but must not: fn w() { %s }" % [w[1] for w in W if w[0] == name][0])
                elif cs & codes:
                    rep.ok("compile-fail-witnesses", name + " rejected with " + ",".join(sorted(cs)))
                else:
                    rep.undecided("compile-fail-witnesses", "%s fails with %s instead of %s" % (name, cs, codes))
            for n, j in pos:
                rc, cs, out = j.result()
                rep.count("witness programs")
                rep.check("required-bounds", rc == 0, n, "this must compile: %s" % out[:300])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
