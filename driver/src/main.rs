//! `ndmir`: a rustc driver that dumps the type-checked program of the crate being compiled
//! (MIR of every local function, of every closure and resolved callee worth inlining, types,
//! constants, items and attributes) as JSON. It decides nothing; the analyses read the dump.
#![feature(rustc_private)]
#![allow(clippy::all)]

extern crate rustc_abi;
extern crate rustc_attr_ir;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

mod json;

use json::{n, s, J};
use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::{self, ConstValue};
use rustc_middle::ty::print::{with_no_trimmed_paths, with_resolve_crate_name};
use rustc_middle::ty::{self, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use std::collections::{BTreeMap, HashMap, VecDeque};

struct Cb;

impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let out = std::env::var("NDMIR_OUT").expect("NDMIR_OUT");
        let only = std::env::var("NDMIR_CRATE").unwrap_or_default();
        if tcx.crate_name(LOCAL_CRATE).as_str() != only || tcx.sess.opts.test {
            return Compilation::Continue;
        }
        let mut d = Dump { tcx, types: vec![], tyidx: HashMap::new(), queue: VecDeque::new(), fns: BTreeMap::new(), seen: HashMap::new(), root: None };
        let j = d.run();
        let mut o = String::new();
        j.write(&mut o);
        std::fs::write(&out, o).expect("write dump");
        Compilation::Continue
    }
}

/// Blocks marked `unsafe` in the source.
struct UnsafeBlocks<'tcx> { tcx: TyCtxt<'tcx>, out: Vec<(rustc_span::Span, String)> }
impl<'tcx> rustc_hir::intravisit::Visitor<'tcx> for UnsafeBlocks<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::All;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> { self.tcx }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
            let o = self.tcx.hir_get_parent_item(b.hir_id);
            self.out.push((b.span, path_of(self.tcx, o.to_def_id())));
        }
        rustc_hir::intravisit::walk_block(self, b);
    }
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    tyidx: HashMap<Ty<'tcx>, usize>,
    queue: VecDeque<(String, Instance<'tcx>, DefId)>,
    fns: BTreeMap<String, J>,
    seen: HashMap<(Instance<'tcx>, Option<DefId>), String>,
    root: Option<DefId>,
}

/// External code whose bodies are dumped so that analyses can look through it.
const INLINE: &[&str] = &[
    "core::option::", "core::result::", "core::bool::", "core::ops::", "core::convert::", "core::cmp::",
    "core::iter::", "core::borrow::", "core::clone::", "core::default::", "core::array::", "core::tuple::",
    "core::slice::iter::", "core::slice::index::", "core::slice::<impl", "core::str::<impl", "core::char::methods::",
    "core::num::<impl", "core::mem::", "core::any::", "core::hint::", "core::ascii::", "core::ptr::",
    "std::option::", "std::result::", "std::iter::", "std::ops::", "std::cmp::", "std::convert::", "std::mem::",
    "std::slice::", "std::str::", "std::array::", "std::borrow::", "std::clone::", "std::default::",
    "bstr::", "serde::", "serde_core::", "alloc::borrow::", "either::",
];

fn path_of(tcx: TyCtxt<'_>, d: DefId) -> String {
    with_no_trimmed_paths!(with_resolve_crate_name!(tcx.def_path_str(d)))
}

impl<'tcx> Dump<'tcx> {
    fn run(&mut self) -> J {
        let tcx = self.tcx;
        let mut roots = vec![];
        let mut keys: Vec<DefId> = tcx.mir_keys(()).iter().map(|d| d.to_def_id()).collect();
        keys.sort_by_key(|d| tcx.def_path_hash(*d));
        for def in keys {
            if !matches!(tcx.def_kind(def), DefKind::Fn | DefKind::AssocFn) { continue; }
            let args = ty::GenericArgs::identity_for_item(tcx, def);
            let inst = Instance { def: InstanceKind::Item(def), args };
            let k = self.enqueue(inst, def);
            roots.push(s(k));
        }
        while let Some((key, inst, root)) = self.queue.pop_front() {
            self.root = Some(root);
            let j = self.body(&key, inst, root);
            self.fns.insert(key, j);
        }
        let items = self.items();
        let mut uv = UnsafeBlocks { tcx, out: vec![] };
        tcx.hir_visit_all_item_likes_in_crate(&mut uv);
        let unsafe_blocks = J::Arr(uv.out.iter().map(|(sp, f)| { let (file, line) = self.span(*sp); J::Arr(vec![s(f.clone()), s(file), n(line)]) }).collect());
        let fns = std::mem::take(&mut self.fns);
        let types = std::mem::take(&mut self.types);
        J::Obj(vec![
            ("crate", s(tcx.crate_name(LOCAL_CRATE).to_string())),
            ("roots", J::Arr(roots)),
            ("items", items),
            ("unsafe_blocks", unsafe_blocks),
            ("types", J::Arr(types)),
            ("fns", J::Map(fns.into_iter().collect())),
        ])
    }

    fn enqueue(&mut self, inst: Instance<'tcx>, root: DefId) -> String {
        let r = if inst.args.has_param() { Some(root) } else { None };
        if let Some(k) = self.seen.get(&(inst, r)) { return k.clone(); }
        let mut key = with_no_trimmed_paths!(with_resolve_crate_name!(self.tcx.def_path_str_with_args(inst.def_id(), inst.args)));
        match inst.def {
            InstanceKind::Item(d) => {
                let ident = ty::GenericArgs::identity_for_item(self.tcx, d);
                if inst.args == ident { key = path_of(self.tcx, d); }
                else if r.is_some() && root != d { key = format!("{key}@{}", path_of(self.tcx, root)); }
            }
            _ => { key = format!("{key}#{:?}", std::mem::discriminant(&inst.def)).replace("Discriminant", "shim"); if r.is_some() { key = format!("{key}@{}", path_of(self.tcx, root)); } }
        }
        let mut k = key.clone();
        let mut i = 1;
        while self.seen.values().any(|v| *v == k) { i += 1; k = format!("{key}~{i}"); }
        self.seen.insert((inst, r), k.clone());
        self.queue.push_back((k.clone(), inst, root));
        k
    }

    fn wants_body(&self, inst: Instance<'tcx>) -> bool {
        let tcx = self.tcx;
        match inst.def {
            InstanceKind::Item(d) => {
                if tcx.intrinsic(d).is_some() { return false; }
                if !tcx.is_mir_available(d) { return false; }
                if d.is_local() { return true; }
                if tcx.is_foreign_item(d) { return false; }
                let p = path_of(tcx, d);
                let q = p.trim_start_matches('<').trim_start_matches('&');
                INLINE.iter().any(|x| p.starts_with(x) || q.starts_with(x)) || {
                    // impl paths print as `<X as Trait>::f`; decide by the trait's or the crate's name.
                    let c = tcx.crate_name(d.krate);
                    let c = c.as_str();
                    let trait_path = tcx.trait_of_assoc(d).map(|t| path_of(tcx, t))
                        .or_else(|| tcx.impl_of_assoc(d).and_then(|i| tcx.impl_opt_trait_ref(i)).map(|t| path_of(tcx, t.skip_binder().def_id)));
                    (c == "core" || c == "alloc" || c == "std") && trait_path.map_or(false, |t| INLINE.iter().any(|x| t.starts_with(x)))
                        || c == "bstr" || c.starts_with("serde")
                }
            }
            InstanceKind::Virtual(..) | InstanceKind::Intrinsic(..) => false,
            _ => true,
        }
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tyidx.get(&t) { return *i; }
        let i = self.types.len();
        self.tyidx.insert(t, i);
        self.types.push(J::Null);
        let tcx = self.tcx;
        let name = with_no_trimmed_paths!(with_resolve_crate_name!(format!("{t}")));
        let mut o: Vec<(&'static str, J)> = vec![("s", s(name))];
        match *t.kind() {
            ty::Bool => o.push(("k", s("bool"))),
            ty::Char => o.push(("k", s("char"))),
            ty::Int(x) => { o.push(("k", s("int"))); o.push(("bits", n(x.bit_width().unwrap_or(64) as usize))); }
            ty::Uint(x) => { o.push(("k", s("uint"))); o.push(("bits", n(x.bit_width().unwrap_or(64) as usize))); }
            ty::Float(x) => { o.push(("k", s("float"))); o.push(("bits", n(x.bit_width() as usize))); }
            ty::Str => o.push(("k", s("str"))),
            ty::Never => o.push(("k", s("never"))),
            ty::Slice(e) => { let e = self.ty(e); o.push(("k", s("slice"))); o.push(("e", n(e))); }
            ty::Array(e, len) => {
                let e = self.ty(e);
                o.push(("k", s("array"))); o.push(("e", n(e)));
                if let Some(l) = len.try_to_target_usize(tcx) { o.push(("len", n(l as usize))); }
            }
            ty::Ref(_, e, m) => { let e = self.ty(e); o.push(("k", s("ref"))); o.push(("e", n(e))); o.push(("mut", J::Bool(m.is_mut()))); }
            ty::RawPtr(e, m) => { let e = self.ty(e); o.push(("k", s("ptr"))); o.push(("e", n(e))); o.push(("mut", J::Bool(m.is_mut()))); }
            ty::Tuple(ts) => { let v = ts.iter().map(|x| n(self.ty(x))).collect(); o.push(("k", s("tuple"))); o.push(("f", J::Arr(v))); }
            ty::Adt(def, args) => {
                o.push(("k", s("adt")));
                o.push(("path", s(path_of(tcx, def.did()))));
                o.push(("local", J::Bool(def.did().is_local())));
                let a = args.types().map(|x| n(self.ty(x))).collect();
                o.push(("args", J::Arr(a)));
                o.push(("ak", s(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" })));
                let p = path_of(tcx, def.did());
                let c = tcx.crate_name(def.did().krate);
                let expand = def.did().is_local() || def.is_enum() || matches!(c.as_str(), "core" | "slab" | "bstr" | "serde" | "serde_core") || (c.as_str() == "alloc" && (p.contains("::Cow") || p.contains("ToOwned")))
                    || p.starts_with("std::option") || p.starts_with("std::result") || p.starts_with("std::ops");
                if expand {
                    let mut vs = vec![];
                    for (vi, v) in def.variants().iter_enumerated() {
                        let d = if def.is_enum() { def.discriminant_for_variant(tcx, vi).val as i128 } else { 0 };
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let ft = f.ty(tcx, args).skip_norm_wip();
                            let ft = tcx.try_normalize_erasing_regions(TypingEnv::post_analysis(tcx, def.did()), ty::Unnormalized::new_wip(ft)).unwrap_or(ft);
                            let fi = self.ty(ft);
                            fs.push(J::Arr(vec![s(f.name.to_string()), n(fi)]));
                        }
                        vs.push(J::Obj(vec![("name", s(v.name.to_string())), ("discr", J::Int(d)), ("f", J::Arr(fs))]));
                    }
                    o.push(("v", J::Arr(vs)));
                }
            }
            ty::FnDef(d, args) => {
                o.push(("k", s("fndef"))); o.push(("path", s(path_of(tcx, d))));
                let a = args.skip_binder().types().map(|x| n(self.ty(x))).collect();
                o.push(("args", J::Arr(a)));
            }
            ty::FnPtr(..) => o.push(("k", s("fnptr"))),
            ty::Closure(d, args) => {
                o.push(("k", s("closure"))); o.push(("path", s(path_of(tcx, d))));
                let a = args.as_closure().upvar_tys().iter().map(|x| n(self.ty(x))).collect();
                o.push(("f", J::Arr(a)));
            }
            ty::Dynamic(preds, _) => {
                o.push(("k", s("dyn")));
                if let Some(p) = preds.principal_def_id() { o.push(("path", s(path_of(tcx, p)))); }
            }
            ty::Param(_) => o.push(("k", s("param"))),
            ty::Alias(..) => o.push(("k", s("alias"))),
            _ => o.push(("k", s("other"))),
        }
        self.types[i] = J::Obj(o);
        i
    }

    fn span(&self, sp: rustc_span::Span) -> (String, usize) {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        (f, lo.line)
    }

    fn body(&mut self, key: &str, inst: Instance<'tcx>, root: DefId) -> J {
        let tcx = self.tcx;
        let te = if inst.args.has_param() { TypingEnv::post_analysis(tcx, root) } else { TypingEnv::fully_monomorphized() };
        let raw = tcx.instance_mir(inst.def);
        let body: mir::Body<'tcx> = match inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, te, ty::EarlyBinder::bind(tcx, raw.clone())) {
            Ok(b) => b,
            Err(_) => return J::Obj(vec![("key", s(key)), ("failed", J::Bool(true))]),
        };
        let body = &body;
        let def = inst.def_id();
        let (file, line) = self.span(body.span);
        let mut o = vec![
            ("key", s(key)),
            ("path", s(path_of(tcx, def))),
            ("local", J::Bool(def.is_local())),
            ("shim", J::Bool(!matches!(inst.def, InstanceKind::Item(_)))),
            ("closure", J::Bool(tcx.is_closure_like(def))),
            ("file", s(file)),
            ("line", n(line)),
            ("args", J::Arr(inst.args.types().map(|t| n(self.ty(t))).collect())),
            ("n_args", n(body.arg_count)),
        ];
        if let Some(sp) = body.spread_arg { o.push(("spread", n(sp.as_usize()))); }
        o.push(("locals", J::Arr(body.local_decls.iter().map(|l| n(self.ty(l.ty))).collect())));
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() { names.push(J::Arr(vec![n(p.local.as_usize()), s(v.name.to_string())])); }
            }
        }
        o.push(("names", J::Arr(names)));
        let mut bbs = vec![];
        for bb in body.basic_blocks.iter() {
            if bb.is_cleanup { bbs.push(J::Null); continue; }
            let mut st = vec![];
            for x in &bb.statements {
                if let Some(j) = self.stmt(x, te, body) { st.push(j); }
            }
            let t = self.term(bb.terminator(), te, root, body);
            bbs.push(J::Arr(vec![J::Arr(st), t]));
        }
        o.push(("bbs", J::Arr(bbs)));
        J::Obj(o)
    }

    fn place(&mut self, p: &mir::Place<'tcx>) -> J {
        let mut proj = vec![];
        for e in p.projection.iter() {
            use mir::ProjectionElem::*;
            proj.push(match e {
                Deref => J::Arr(vec![s("d")]),
                Field(f, t) => J::Arr(vec![s("f"), n(f.as_usize()), n(self.ty(t))]),
                Index(l) => J::Arr(vec![s("i"), n(l.as_usize())]),
                ConstantIndex { offset, min_length, from_end } => J::Arr(vec![s("ci"), n(offset as usize), n(min_length as usize), J::Bool(from_end)]),
                Subslice { from, to, from_end } => J::Arr(vec![s("ss"), n(from as usize), n(to as usize), J::Bool(from_end)]),
                Downcast(_, v) => J::Arr(vec![s("v"), n(v.as_usize())]),
                _ => J::Arr(vec![s("o")]),
            });
        }
        J::Arr(vec![n(p.local.as_usize()), J::Arr(proj)])
    }

    fn operand(&mut self, op: &mir::Operand<'tcx>, te: TypingEnv<'tcx>) -> J {
        match op {
            mir::Operand::Copy(p) => J::Arr(vec![s("c"), self.place(p)]),
            mir::Operand::Move(p) => J::Arr(vec![s("m"), self.place(p)]),
            mir::Operand::Constant(c) => J::Arr(vec![s("k"), self.konst(&c.const_, te, c.span)]),
            mir::Operand::RuntimeChecks(_) => J::Arr(vec![s("rc")]),
        }
    }

    fn konst(&mut self, c: &mir::Const<'tcx>, te: TypingEnv<'tcx>, sp: rustc_span::Span) -> J {
        let t = c.ty();
        let ti = self.ty(t);
        let v = match c.eval(self.tcx, te, sp) {
            Ok(v) => self.cval(v, t, 0),
            Err(_) => J::Obj(vec![("unk", s(format!("{c}")))]),
        };
        J::Obj(vec![("t", n(ti)), ("v", v)])
    }

    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        if depth > 12 { return J::Obj(vec![("unk", s("deep"))]); }
        match *t.kind() {
            ty::FnDef(d, args) => {
                // resolved by the consumer through the type; also try to provide an instance
                let args = args.skip_binder();
                let mut o = vec![("fn", s(path_of(tcx, d)))];
                if !args.has_param() {
                    if let Ok(Some(i)) = Instance::try_resolve(tcx, TypingEnv::fully_monomorphized(), d, args) {
                        if self.wants_body(i) { o.push(("key", s(self.enqueue(i, d)))); }
                    }
                }
                return J::Obj(o);
            }
            _ => {}
        }
        if let ConstValue::ZeroSized = v {
            return match *t.kind() {
                ty::Closure(..) => J::Obj(vec![("closure", J::Bool(true))]),
                ty::Adt(..) | ty::Tuple(..) | ty::Array(..) => self.destructure(v, t, depth),
                _ => J::Obj(vec![("zst", J::Bool(true))]),
            };
        }
        match *t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) => {
                if let Some(sc) = self.scalar(v, t) {
                    if let Scalar::Int(i) = sc {
                        let size = i.size();
                        let val = if matches!(t.kind(), ty::Int(_)) { i.to_int(size) } else { i.to_uint(size) as i128 };
                        if matches!(t.kind(), ty::Uint(_)) && i.to_uint(size) > i128::MAX as u128 { return J::Obj(vec![("big", s(i.to_uint(size).to_string()))]); }
                        return J::Obj(vec![("int", J::Int(val))]);
                    }
                }
                J::Obj(vec![("unk", s("scalar"))])
            }
            ty::Ref(_, e, _) | ty::RawPtr(e, _) => {
                match *e.kind() {
                    ty::Str => match v.try_get_slice_bytes_for_diagnostics(tcx) { Some(b) => bytes("str", b), None => J::Obj(vec![("unk", s("str"))]) },
                    ty::Slice(el) => {
                        // fat pointer
                        let (alloc, off, len) = match v {
                            ConstValue::Slice { alloc_id, meta } => (alloc_id, 0u64, meta),
                            ConstValue::Indirect { alloc_id, offset } => {
                                let a = match tcx.global_alloc(alloc_id) { GlobalAlloc::Memory(a) => a, _ => return J::Obj(vec![("unk", s("slice"))]) };
                                let a = a.inner();
                                let ps = tcx.data_layout.pointer_size();
                                let p = a.read_scalar(&tcx, rustc_middle::mir::interpret::AllocRange { start: offset, size: ps }, true);
                                let l = a.read_scalar(&tcx, rustc_middle::mir::interpret::AllocRange { start: offset + ps, size: ps }, false);
                                match (p, l) {
                                    (Ok(Scalar::Ptr(p, _)), Ok(l)) => { let (pr, o2) = p.prov_and_relative_offset(); (pr.alloc_id(), o2.bytes(), l.to_target_usize(&tcx).discard_err().unwrap_or(0)) }
                                    (_, Ok(l)) if l.to_target_usize(&tcx).discard_err() == Some(0) => return J::Obj(vec![("ref", J::Obj(vec![("arr", J::Arr(vec![]))]))]),
                                    _ => return J::Obj(vec![("unk", s("slice"))]),
                                }
                            }
                            _ => return J::Obj(vec![("unk", s("slice"))]),
                        };
                        if len > 512 { return J::Obj(vec![("unk", s("long slice"))]); }
                        let at = Ty::new_array(tcx, el, len);
                        let iv = ConstValue::Indirect { alloc_id: alloc, offset: rustc_abi::Size::from_bytes(off) };
                        let inner = self.cval(iv, at, depth + 1);
                        J::Obj(vec![("ref", inner)])
                    }
                    ty::Dynamic(..) => J::Obj(vec![("unk", s("dyn"))]),
                    _ => {
                        match self.scalar(v, t) {
                            Some(Scalar::Ptr(p, _)) => {
                                let (pr, off) = p.prov_and_relative_offset();
                                match tcx.global_alloc(pr.alloc_id()) {
                                    GlobalAlloc::Memory(_) => {
                                        let iv = ConstValue::Indirect { alloc_id: pr.alloc_id(), offset: off };
                                        let inner = self.cval(iv, e, depth + 1);
                                        J::Obj(vec![("ref", inner)])
                                    }
                                    GlobalAlloc::Static(d) => J::Obj(vec![("static", s(path_of(tcx, d)))]),
                                    GlobalAlloc::Function { instance, .. } => J::Obj(vec![("fnref", s(path_of(tcx, instance.def_id())))]),
                                    _ => J::Obj(vec![("unk", s("ptr"))]),
                                }
                            }
                            _ => J::Obj(vec![("unk", s("ptr"))]),
                        }
                    }
                }
            }
            ty::Array(e, _) if e == tcx.types.u8 => {
                if let ConstValue::Indirect { alloc_id, offset } = v {
                    if let GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) {
                        let len = match *t.kind() { ty::Array(_, l) => l.try_to_target_usize(tcx).unwrap_or(0), _ => 0 };
                        let a = a.inner();
                        let st = offset.bytes() as usize;
                        if a.provenance().ptrs().is_empty() {
                            return bytes("bytes", a.inspect_with_uninit_and_ptr_outside_interpreter(st..st + len as usize));
                        }
                    }
                }
                self.destructure(v, t, depth)
            }
            ty::Adt(..) | ty::Tuple(..) | ty::Array(..) => self.destructure(v, t, depth),
            _ => J::Obj(vec![("unk", s("other"))]),
        }
    }

    fn destructure(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        if let ty::Adt(d, _) = *t.kind() { if d.is_union() { return J::Obj(vec![("unk", s("union"))]); } }
        if let ty::Array(_, l) = *t.kind() { if l.try_to_target_usize(tcx).unwrap_or(99999) > 512 { return J::Obj(vec![("unk", s("long array"))]); } }
        if t.has_param() { return J::Obj(vec![("unk", s("param"))]); }
        match tcx.try_destructure_mir_constant_for_user_output(v, t) {
            Some(d) => {
                let fs: Vec<J> = d.fields.iter().map(|(fv, ft)| { let ti = self.ty(*ft); J::Obj(vec![("t", n(ti)), ("v", self.cval(*fv, *ft, depth + 1))]) }).collect();
                match *t.kind() {
                    ty::Array(..) => J::Obj(vec![("arr", J::Arr(fs))]),
                    _ => J::Obj(vec![("adt", J::Arr(fs)), ("var", n(d.variant.map_or(0, |x| x.as_usize())))]),
                }
            }
            None => J::Obj(vec![("unk", s("destructure"))]),
        }
    }

    fn scalar(&self, v: ConstValue, t: Ty<'tcx>) -> Option<Scalar> {
        let tcx = self.tcx;
        match v {
            ConstValue::Scalar(x) => Some(x),
            ConstValue::Indirect { alloc_id, offset } => {
                let GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) else { return None };
                let lay = tcx.layout_of(TypingEnv::fully_monomorphized().as_query_input(t)).ok()?;
                let ptr = t.is_any_ptr();
                a.inner().read_scalar(&tcx, rustc_middle::mir::interpret::AllocRange { start: offset, size: lay.size }, ptr).ok()
            }
            _ => None,
        }
    }

    fn stmt(&mut self, x: &mir::Statement<'tcx>, te: TypingEnv<'tcx>, body: &mir::Body<'tcx>) -> Option<J> {
        use mir::StatementKind::*;
        let (_, line) = self.span(x.source_info.span);
        match &x.kind {
            Assign(b) => {
                let p = self.place(&b.0);
                let r = self.rvalue(&b.1, te, body);
                Some(J::Arr(vec![s("="), p, r, n(line)]))
            }
            StorageDead(l) => Some(J::Arr(vec![s("dead"), n(l.as_usize())])),
            SetDiscriminant { place, variant_index } => Some(J::Arr(vec![s("sd"), self.place(place), n(variant_index.as_usize())])),
            Intrinsic(i) => match &**i {
                mir::NonDivergingIntrinsic::Assume(o) => Some(J::Arr(vec![s("assume"), self.operand(o, te)])),
                _ => Some(J::Arr(vec![s("cpy")])),
            },
            _ => None,
        }
    }

    fn rvalue(&mut self, r: &mir::Rvalue<'tcx>, te: TypingEnv<'tcx>, body: &mir::Body<'tcx>) -> J {
        use mir::Rvalue::*;
        let tcx = self.tcx;
        match r {
            Use(o, ..) => J::Arr(vec![s("use"), self.operand(o, te)]),
            Repeat(o, c) => J::Arr(vec![s("rep"), self.operand(o, te), match c.try_to_target_usize(tcx) { Some(x) => n(x as usize), None => J::Null }]),
            Ref(_, k, p) => J::Arr(vec![s("ref"), s(if matches!(k, mir::BorrowKind::Mut { .. }) { "mut" } else { "shr" }), self.place(p)]),
            Reborrow(_, m, p) => J::Arr(vec![s("ref"), s(if m.is_mut() { "mut" } else { "shr" }), self.place(p)]),
            RawPtr(_, p) => J::Arr(vec![s("ref"), s("raw"), self.place(p)]),
            Cast(k, o, t) => {
                let ot = o.ty(&body.local_decls, tcx);
                let oi = self.ty(ot);
                let ti = self.ty(*t);
                J::Arr(vec![s("cast"), s(format!("{k:?}")), self.operand(o, te), n(ti), n(oi)])
            }
            BinaryOp(op, b) => {
                let ot = b.0.ty(&body.local_decls, tcx);
                let ti = self.ty(ot);
                J::Arr(vec![s("bin"), s(format!("{op:?}")), self.operand(&b.0, te), self.operand(&b.1, te), n(ti)])
            }
            UnaryOp(op, o) => {
                let ot = o.ty(&body.local_decls, tcx);
                let ti = self.ty(ot);
                J::Arr(vec![s("un"), s(format!("{op:?}")), self.operand(o, te), n(ti)])
            }
            Discriminant(p) => { let t = p.ty(&body.local_decls, tcx).ty; let ti = self.ty(t); J::Arr(vec![s("discr"), self.place(p), n(ti)]) }
            Aggregate(k, ops) => {
                let t = r.ty(&body.local_decls, tcx);
                let ti = self.ty(t);
                let ops: Vec<J> = ops.iter().map(|o| self.operand(o, te)).collect();
                let (kind, var) = match &**k {
                    mir::AggregateKind::Array(_) => ("array", 0),
                    mir::AggregateKind::Tuple => ("tuple", 0),
                    mir::AggregateKind::Adt(_, v, ..) => ("adt", v.as_usize()),
                    mir::AggregateKind::Closure(..) => ("closure", 0),
                    mir::AggregateKind::RawPtr(..) => ("rawptr", 0),
                    _ => ("other", 0),
                };
                let mut v = vec![s("agg"), s(kind), n(ti), n(var), J::Arr(ops)];
                if let mir::AggregateKind::Closure(d, args) = &**k {
                    let inst = Instance { def: InstanceKind::Item(*d), args };
                    let root = self.root.unwrap();
                    v.push(s(self.enqueue(inst, root)));
                }
                J::Arr(v)
            }
            CopyForDeref(p) => J::Arr(vec![s("use"), J::Arr(vec![s("c"), self.place(p)])]),
            _ => J::Arr(vec![s("other"), s(format!("{r:?}"))]),
        }
    }

    fn term(&mut self, t: &mir::Terminator<'tcx>, te: TypingEnv<'tcx>, root: DefId, body: &mir::Body<'tcx>) -> J {
        use mir::TerminatorKind::*;
        let tcx = self.tcx;
        let (file, line) = self.span(t.source_info.span);
        let bb = |b: mir::BasicBlock| n(b.as_usize());
        match &t.kind {
            Goto { target, .. } => J::Arr(vec![s("goto"), bb(*target)]),
            SwitchInt { discr, targets } => {
                let ty_ = discr.ty(&body.local_decls, tcx);
                let ti = self.ty(ty_);
                let vs = targets.iter().map(|(v, b)| J::Arr(vec![if v > i128::MAX as u128 { s(v.to_string()) } else { J::Int(v as i128) }, bb(b)])).collect();
                J::Arr(vec![s("switch"), self.operand(discr, te), n(ti), J::Arr(vs), bb(targets.otherwise()), n(line)])
            }
            Return => J::Arr(vec![s("ret")]),
            Unreachable => J::Arr(vec![s("unreachable")]),
            Drop { place, target, .. } => {
                let t = place.ty(&body.local_decls, tcx).ty;
                let ti = self.ty(t);
                J::Arr(vec![s("drop"), self.place(place), bb(*target), n(ti)])
            }
            Assert { cond, expected, msg, target, .. } => {
                let m = format!("{msg:?}");
                J::Arr(vec![s("assert"), self.operand(cond, te), J::Bool(*expected), s(m), bb(*target), n(line)])
            }
            Call { func, args, destination, target, .. } => {
                let ft = func.ty(&body.local_decls, tcx);
                let c = self.callee(func, ft, te, root);
                let a: Vec<J> = args.iter().map(|x| self.operand(&x.node, te)).collect();
                let at: Vec<J> = args.iter().map(|x| { let t = x.node.ty(&body.local_decls, tcx); n(self.ty(t)) }).collect();
                let dt = destination.ty(&body.local_decls, tcx).ty;
                let dti = self.ty(dt);
                let f = if file.contains("/src/") && !file.starts_with('/') { J::Null } else { s(file) };
                J::Arr(vec![s("call"), c, J::Arr(a), self.place(destination), match target { Some(b) => bb(*b), None => J::Null }, n(line), J::Arr(at), n(dti), f])
            }
            UnwindResume | UnwindTerminate(_) => J::Arr(vec![s("resume")]),
            other => J::Arr(vec![s("other"), s(format!("{other:?}"))]),
        }
    }

    fn callee(&mut self, func: &mir::Operand<'tcx>, ft: Ty<'tcx>, te: TypingEnv<'tcx>, root: DefId) -> J {
        let tcx = self.tcx;
        if let ty::FnDef(d, args) = *ft.kind() {
            let args: GenericArgsRef<'tcx> = args.skip_binder();
            let args = tcx.try_normalize_erasing_regions(te, ty::Unnormalized::new_wip(args)).unwrap_or(args);
            let mut o = vec![("path", s(path_of(tcx, d)))];
            o.push(("full", s(with_no_trimmed_paths!(with_resolve_crate_name!(tcx.def_path_str_with_args(d, args))))));
            o.push(("args", J::Arr(args.types().map(|t| n(self.ty(t))).collect())));
            let cs: Vec<J> = args.consts().map(|c| match c.try_to_target_usize(tcx) { Some(x) => n(x as usize), None => J::Null }).collect();
            if !cs.is_empty() { o.push(("consts", J::Arr(cs))); }
            if let Some(t) = tcx.trait_of_assoc(d) { o.push(("trait", s(path_of(tcx, t)))); }
            if tcx.intrinsic(d).is_some() { o.push(("intrinsic", s(tcx.item_name(d).to_string()))); }
            match Instance::try_resolve(tcx, te, d, args) {
                Ok(Some(i)) => {
                    let kind = match i.def {
                        InstanceKind::Item(_) => "item", InstanceKind::Virtual(..) => "virtual", InstanceKind::Intrinsic(..) => "intrinsic", _ => "shim",
                    };
                    o.push(("kind", s(kind)));
                    o.push(("rpath", s(path_of(tcx, i.def_id()))));
                    o.push(("local", J::Bool(i.def_id().is_local())));
                    o.push(("rargs", J::Arr(i.args.types().map(|t| n(self.ty(t))).collect())));
                    if self.wants_body(i) { o.push(("key", s(self.enqueue(i, root)))); }
                }
                _ => o.push(("kind", s("unresolved"))),
            }
            o.push(("sname", s(tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default())));
            J::Obj(o)
        } else {
            J::Obj(vec![("kind", s("indirect")), ("op", self.operand(func, te))])
        }
    }

    fn items(&mut self) -> J {
        let tcx = self.tcx;
        let ev = tcx.effective_visibilities(());
        let mut out = vec![];
        let mut defs: Vec<_> = tcx.hir_crate_items(()).definitions().collect();
        defs.sort_by_key(|d| tcx.def_path_hash(d.to_def_id()));
        for ld in defs {
            let d = ld.to_def_id();
            let kind = tcx.def_kind(d);
            let kname = format!("{kind:?}");
            if matches!(kind, DefKind::Closure | DefKind::AnonConst | DefKind::LifetimeParam | DefKind::TyParam | DefKind::ConstParam | DefKind::Use | DefKind::ExternCrate | DefKind::Ctor(..)) { continue; }
            let (file, line) = self.span(tcx.def_span(d));
            let mut o = vec![("path", s(path_of(tcx, d))), ("kind", s(kname)), ("file", s(file)), ("line", n(line)), ("pub", J::Bool(ev.is_exported(ld)))];
            let hid = tcx.local_def_id_to_hir_id(ld);
            let attrs_of = |hid: rustc_hir::HirId| { let mut attrs = vec![];
            for a in tcx.hir_attrs(hid) {
                let (name, snip) = match a {
                    rustc_attr_ir::Attribute::Tool(it) | rustc_attr_ir::Attribute::DeriveHelper(it) => (it.path.segments.iter().map(|x| x.to_string()).collect::<Vec<_>>().join("::"), tcx.sess.source_map().span_to_snippet(it.span).unwrap_or_default()),
                    rustc_attr_ir::Attribute::Parsed(k) => { let t = format!("{k:?}"); (t.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string(), String::new()) }
                };
                if name == "DocComment" || name == "doc" { continue; }
                attrs.push(J::Arr(vec![s(name), s(snip)]));
            }
            J::Arr(attrs) };
            o.push(("attrs", attrs_of(hid)));
            match kind {
                DefKind::Fn | DefKind::AssocFn => {
                    let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip();
                    o.push(("sig", s(with_no_trimmed_paths!(format!("{sig}")))));
                    o.push(("unsafe", J::Bool(sig.safety().is_unsafe())));
                    let inp = sig.skip_binder().inputs().iter().map(|t| n(self.ty(*t))).collect();
                    o.push(("inputs", J::Arr(inp)));
                    let rt = self.ty(sig.skip_binder().output());
                    o.push(("output", n(rt)));
                    o.push(("impl", match tcx.impl_of_assoc(d) { Some(i) => s(format!("{}", tcx.type_of(i).instantiate_identity().skip_norm_wip())), None => J::Null }));
                    o.push(("itrait", match tcx.impl_of_assoc(d).and_then(|i| tcx.impl_opt_trait_ref(i)) { Some(t) => s(path_of(tcx, t.skip_binder().def_id)), None => J::Null }));
                    o.push(("derived", J::Bool(tcx.impl_of_assoc(d).map_or(false, |i| tcx.is_automatically_derived(i)))));
                }
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let ti = self.ty(t);
                    o.push(("ty", n(ti)));
                    let mut vs = vec![];
                    for v in tcx.adt_def(d).variants() {
                        let fs: Vec<J> = v.fields.iter().map(|f| {
                            let ft = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                            J::Arr(vec![s(f.name.to_string()), s(with_no_trimmed_paths!(format!("{ft}"))), J::Bool(f.did.as_local().map_or(false, |x| ev.is_exported(x))), f.did.as_local().map_or(J::Null, |x| attrs_of(tcx.local_def_id_to_hir_id(x)))])
                        }).collect();
                        let va = v.def_id.as_local().filter(|_| kind == DefKind::Enum).map_or(J::Arr(vec![]), |x| attrs_of(tcx.local_def_id_to_hir_id(x)));
                        vs.push(J::Obj(vec![("name", s(v.name.to_string())), ("fields", J::Arr(fs)), ("attrs", va)]));
                    }
                    o.push(("variants", J::Arr(vs)));
                }
                DefKind::Impl { .. } => {
                    o.push(("self", s(with_no_trimmed_paths!(format!("{}", tcx.type_of(d).instantiate_identity().skip_norm_wip())))));
                    if let Some(t) = tcx.impl_opt_trait_ref(d) { o.push(("trait", s(path_of(tcx, t.skip_binder().def_id)))); 
                        o.push(("unsafe", J::Bool(tcx.impl_trait_header(d).safety.is_unsafe()))); }
                    o.push(("derived", J::Bool(tcx.is_automatically_derived(d))));
                }
                DefKind::Static { mutability, .. } => {
                    o.push(("mut", J::Bool(mutability.is_mut())));
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let ti = self.ty(t);
                    o.push(("ty", n(ti)));
                }
                _ => {}
            }
            out.push(J::Obj(o));
        }
        J::Arr(out)
    }
}

fn bytes(k: &'static str, b: &[u8]) -> J {
    J::Obj(vec![(k, J::Arr(b.iter().map(|x| n(*x as usize)).collect()))])
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER passes the path of rustc as the first argument.
    if args.get(1).map_or(false, |a| a.ends_with("rustc")) { args.remove(1); }
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
