//! rustc driver: compiles the crate exactly as cargo asks, and for the crates named in SOUPY_FACTS_CRATES
//! writes the resolved MIR of every function (and of the small std helpers it needs) as JSON to SOUPY_FACTS_DIR.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use std::collections::{BTreeMap, HashMap, VecDeque};
use std::fmt::Write as _;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_interface::interface;
use rustc_middle::mir::{self, interpret::GlobalAlloc, ConstValue};
use rustc_middle::ty::{self, EarlyBinder, GenericArgs, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_span::DUMMY_SP;

// ---------------------------------------------------------------- tiny JSON writer
#[derive(Clone, Debug)]
enum J {
    Null,
    B(bool),
    S(String),
    I(i128),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}
fn esc(o: &mut String, x: &str) {
    o.push('"');
    for c in x.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::S(x) => esc(o, x),
            J::I(i) => {
                let _ = write!(o, "{i}");
            }
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.w(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    esc(o, k);
                    o.push(':');
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    queue: VecDeque<(String, Instance<'tcx>, DefId)>,
    bodies: BTreeMap<String, J>,
    seen: HashMap<String, ()>,
    adts: BTreeMap<String, J>,
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    rustc_middle::ty::print::with_no_trimmed_paths!(rustc_middle::ty::print::with_forced_impl_filename_line!(
        rustc_middle::ty::print::with_resolve_crate_name!(tcx.def_path_str(d))
    ))
}
fn tystr<'tcx>(t: Ty<'tcx>) -> String {
    rustc_middle::ty::print::with_no_trimmed_paths!(rustc_middle::ty::print::with_resolve_crate_name!(t.to_string()))
}

/// path that does not depend on lines: <SelfTy as Trait>::name for impl items
fn cpath<'tcx>(tcx: TyCtxt<'tcx>, d: DefId) -> String {
    rustc_middle::ty::print::with_no_trimmed_paths!(rustc_middle::ty::print::with_resolve_crate_name!(
        tcx.def_path_str(d)
    ))
}

const STD_BODIES: &[&str] = &[
    "core::option::", "core::result::", "core::convert::", "core::ops::", "core::bool::", "core::cmp::",
    "core::borrow::", "alloc::borrow::", "core::tuple::", "core::clone::", "core::default::", "core::ops::try_trait",
    "std::option::", "std::result::", "std::convert::", "std::ops::", "std::bool::", "std::cmp::", "std::borrow::",
    "std::clone::", "std::default::", "std::tuple::",
];

impl<'tcx> Cx<'tcx> {
    fn env(&self, root: DefId) -> TypingEnv<'tcx> {
        TypingEnv::post_analysis(self.tcx, root)
    }

    fn want_body(&self, inst: Instance<'tcx>) -> bool {
        let d = inst.def_id();
        if !matches!(inst.def, InstanceKind::Item(_)) {
            return false;
        }
        if !self.tcx.is_mir_available(d) {
            return false;
        }
        if d.is_local() {
            return true;
        }
        if !matches!(self.tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
            return false;
        }
        let p = self.tcx.def_path(d).to_string_no_crate_verbose();
        let full = format!("{}{}", self.tcx.crate_name(d.krate), p);
        STD_BODIES.iter().any(|x| full.starts_with(x))
    }

    fn key(&self, inst: Instance<'tcx>) -> String {
        let p = cpath(self.tcx, inst.def_id());
        let a: Vec<String> = inst
            .args
            .iter()
            .filter(|g| g.as_region().is_none())
            .map(|g| rustc_middle::ty::print::with_no_trimmed_paths!(rustc_middle::ty::print::with_resolve_crate_name!(g.to_string())))
            .collect();
        format!("{p}#{:?}[{}]", self.tcx.def_path_hash(inst.def_id()).0.to_hex(), a.join(", "))
    }

    fn enqueue(&mut self, inst: Instance<'tcx>, root: DefId) -> String {
        let k = self.key(inst);
        if !self.seen.contains_key(&k) {
            self.seen.insert(k.clone(), ());
            self.queue.push_back((k.clone(), inst, root));
        }
        k
    }

    /// describe a callee / function value
    fn fnref(&mut self, d: DefId, args: GenericArgsRef<'tcx>, root: DefId) -> J {
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = vec![("path", s(cpath(tcx, d)))];
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("trait", s(cpath(tcx, tr))));
            if args.types().next().is_some() {
                o.push(("selfty", s(tystr(args.type_at(0)))));
            }
        }
        o.push(("name", s(tcx.item_name(d).to_string())));
        o.push(("crate", s(tcx.crate_name(d.krate).to_string())));
        if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            // tuple struct / variant constructor used as a function
            let ctor_parent = tcx.parent(d);
            let (adt_did, vidx) = if matches!(tcx.def_kind(ctor_parent), DefKind::Variant) {
                let adt = tcx.adt_def(tcx.parent(ctor_parent));
                (adt.did(), adt.variant_index_with_id(ctor_parent).as_usize())
            } else {
                (ctor_parent, 0)
            };
            self.adt(adt_did);
            o.push(("ctor", J::A(vec![s(cpath(tcx, adt_did)), J::I(vidx as i128)])));
            return J::O(o);
        }
        o.push(("args", J::A(args.iter().filter(|g| g.as_region().is_none()).map(|g| {
            s(rustc_middle::ty::print::with_no_trimmed_paths!(rustc_middle::ty::print::with_resolve_crate_name!(g.to_string())))
        }).collect())));
        let env = self.env(root);
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d, args) {
                let rd = inst.def_id();
                o.push(("rpath", s(cpath(tcx, rd))));
                o.push(("rcrate", s(tcx.crate_name(rd.krate).to_string())));
                match inst.def {
                    InstanceKind::Item(_) => {}
                    other => o.push(("shim", s(format!("{other:?}").split('(').next().unwrap_or("").to_string()))),
                }
                if self.want_body(inst) {
                    let k = self.enqueue(inst, root);
                    o.push(("key", s(k)));
                }
            } else {
                o.push(("unresolved", J::B(true)));
            }
        }
        J::O(o)
    }

    fn adt(&mut self, d: DefId) {
        let tcx = self.tcx;
        let p = cpath(tcx, d);
        if self.adts.contains_key(&p) {
            return;
        }
        self.adts.insert(p.clone(), J::Null);
        let adt = tcx.adt_def(d);
        let kind = if adt.is_enum() { "enum" } else if adt.is_union() { "union" } else { "struct" };
        let discrs: HashMap<usize, i128> = if adt.is_enum() {
            adt.discriminants(tcx).map(|(i, d)| (i.as_usize(), d.val as i128)).collect()
        } else {
            HashMap::new()
        };
        let vs: Vec<J> = adt
            .variants()
            .iter_enumerated()
            .map(|(i, v)| {
                J::O(vec![
                    ("name", s(v.name.to_string())),
                    ("discr", J::I(*discrs.get(&i.as_usize()).unwrap_or(&0))),
                    ("fields", J::A(v.fields.iter().map(|f| s(f.name.to_string())).collect())),
                    ("vis", J::A(v.fields.iter().map(|f| s(if f.vis.is_public() { "pub" } else { "priv" })).collect())),
                    ("ftys", J::A(v.fields.iter().map(|f| s(tystr(tcx.type_of(f.did).instantiate_identity().skip_norm_wip()))).collect())),
                ])
            })
            .collect();
        self.adts.insert(p, J::O(vec![("kind", s(kind)), ("local", J::B(d.is_local())), ("variants", J::A(vs))]));
    }

    fn ty(&mut self, t: Ty<'tcx>) -> J {
        if let ty::Adt(a, _) = t.kind() {
            self.adt(a.did());
        }
        s(tystr(t))
    }

    fn place(&mut self, p: &mir::Place<'tcx>, body: &mir::Body<'tcx>) -> J {
        let tcx = self.tcx;
        let mut v = vec![J::I(p.local.as_usize() as i128)];
        let mut pt = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for el in p.projection.iter() {
            let adt_kind = pt.ty.ty_adt_def().map(|a| cpath(tcx, a.did()));
            v.push(match el {
                mir::ProjectionElem::Deref => J::A(vec![s("deref")]),
                mir::ProjectionElem::Field(f, _) => {
                    let b = match &adt_kind {
                        Some(x) if x == "alloc::boxed::Box" || x == "std::boxed::Box" => "box",
                        Some(x) if x.ends_with("ptr::unique::Unique") || x.ends_with("ptr::Unique") => "boxinner",
                        Some(x) if x.ends_with("ptr::NonNull") || x.ends_with("non_null::NonNull") => "boxinner",
                        _ => "field",
                    };
                    let union = pt.ty.is_union();
                    J::A(vec![s(b), J::I(f.as_usize() as i128), J::B(union)])
                }
                mir::ProjectionElem::Index(l) => J::A(vec![s("index"), J::I(l.as_usize() as i128)]),
                mir::ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    J::A(vec![s("constindex"), J::I(offset as i128), J::I(min_length as i128), J::B(from_end)])
                }
                mir::ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("subslice"), J::I(from as i128), J::I(to as i128), J::B(from_end)])
                }
                mir::ProjectionElem::Downcast(_, vi) => {
                    if let ty::Adt(a, _) = pt.ty.kind() {
                        self.adt(a.did());
                        J::A(vec![s("downcast"), J::I(vi.as_usize() as i128), s(cpath(tcx, a.did()))])
                    } else {
                        J::A(vec![s("downcast"), J::I(vi.as_usize() as i128), s("?")])
                    }
                }
                _ => J::A(vec![s("other")]),
            });
            pt = pt.projection_ty(tcx, el);
        }
        J::A(v)
    }

    fn const_alloc_str(&self, alloc_id: mir::interpret::AllocId, off: u64, len: u64) -> Option<Vec<u8>> {
        if let GlobalAlloc::Memory(a) = self.tcx.global_alloc(alloc_id) {
            let a = a.inner();
            let (st, en) = (off as usize, (off + len) as usize);
            if en <= a.len() {
                return Some(a.inspect_with_uninit_and_ptr_outside_interpreter(st..en).to_vec());
            }
        }
        None
    }

    fn constant(&mut self, c: &mir::ConstOperand<'tcx>, owner: Instance<'tcx>, root: DefId) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let env = self.env(root);
        let mut o: Vec<(&'static str, J)> = vec![("k", s("const")), ("ty", self.ty(t))];
        match t.kind() {
            ty::FnDef(d, args) => {
                let a = args.no_bound_vars().unwrap_or_else(|| args.skip_binder());
                let f = self.fnref(*d, a, root);
                o.push(("fn", f));
                return J::O(o);
            }
            ty::Closure(d, args) => {
                let inst = Instance::new_raw(*d, args);
                let k = self.enqueue(inst, root);
                o.push(("closure", s(k)));
                return J::O(o);
            }
            _ => {}
        }
        // promoted / named constant
        if let mir::Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                let k = format!("{}::promoted{}", self.key(owner), p.as_usize());
                if !self.seen.contains_key(&k) {
                    self.seen.insert(k.clone(), ());
                    let pm = tcx.promoted_mir(u.def);
                    let b = pm[p].clone();
                    self.body(k.clone(), b, owner, root, "promoted");
                }
                o.push(("promoted", s(k)));
                return J::O(o);
            }
            o.push(("cpath", s(cpath(tcx, u.def))));
            if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, u.def, u.args) {
                if inst.def_id().is_local() && matches!(inst.def, InstanceKind::Item(_)) {
                    let k = self.enqueue(inst, root);
                    o.push(("constkey", s(k)));
                }
            }
        }
        let val = match c.const_ {
            mir::Const::Val(v, _) => Some(v),
            mir::Const::Unevaluated(u, _) => {
                if rustc_middle::ty::TypeVisitableExt::has_non_region_param(&u.args) {
                    None
                } else {
                    c.const_.eval(tcx, env, DUMMY_SP).ok()
                }
            }
            mir::Const::Ty(..) => c.const_.eval(tcx, env, DUMMY_SP).ok(),
        };
        if let Some(v) = val {
            match v {
                ConstValue::ZeroSized => o.push(("zst", J::B(true))),
                ConstValue::Scalar(sc) => match sc {
                    mir::interpret::Scalar::Int(i) => {
                        let size = i.size();
                        let bits = i.to_bits(size);
                        let n: i128 = if t.is_signed() { size.sign_extend(bits) as i128 } else { bits as i128 };
                        o.push(("int", s(n.to_string())));
                        if let ty::Adt(ad, _) = t.kind() {
                            o.push(("adt", s(cpath(tcx, ad.did()))));
                            if let Some(v) = self.scalar_variant(t, bits, size, env) {
                                o.push(("variant", J::I(v as i128)));
                            }
                        }
                    }
                    mir::interpret::Scalar::Ptr(p, _) => {
                        let (prov, off) = p.prov_and_relative_offset();
                        match tcx.global_alloc(prov.alloc_id()) {
                            GlobalAlloc::Static(d) => {
                                o.push(("static", s(cpath(tcx, d))));
                                if d.is_local() && !tcx.is_foreign_item(d) {
                                    let inst = Instance::mono(tcx, d);
                                    let k = self.enqueue(inst, d);
                                    o.push(("constkey", s(k)));
                                }
                            }
                            GlobalAlloc::Memory(_) => {
                                // &[u8; N] byte strings and the like
                                if let ty::Ref(_, inner, _) = t.kind() {
                                    if let ty::Array(et, n) = inner.kind() {
                                        if *et == tcx.types.u8 {
                                            if let Some(n) = n.try_to_target_usize(tcx) {
                                                if let Some(b) = self.const_alloc_str(prov.alloc_id(), off.bytes(), n) {
                                                    o.push(("bytes", J::A(b.into_iter().map(|x| J::I(x as i128)).collect())));
                                                }
                                            }
                                        }
                                    }
                                }
                            }
                            GlobalAlloc::Function { instance } => {
                                let f = self.fnref(instance.def_id(), instance.args, root);
                                o.push(("fn", f));
                            }
                            _ => {}
                        }
                    }
                },
                ConstValue::Slice { alloc_id, meta } => {
                    if let Some(b) = self.const_alloc_str(alloc_id, 0, meta) {
                        let is_str = matches!(t.kind(), ty::Ref(_, i, _) if i.is_str());
                        if is_str {
                            if let Ok(x) = String::from_utf8(b) {
                                o.push(("str", s(x)));
                            }
                        } else {
                            o.push(("bytes", J::A(b.into_iter().map(|x| J::I(x as i128)).collect())));
                        }
                    }
                }
                ConstValue::Indirect { .. } => o.push(("indirect", J::B(true))),
            }
        }
        J::O(o)
    }

    /// variant of an enum constant that fits a scalar
    fn scalar_variant(&self, t: Ty<'tcx>, bits: u128, size: rustc_abi::Size, env: TypingEnv<'tcx>) -> Option<usize> {
        let l = self.tcx.layout_of(env.as_query_input(t)).ok()?;
        match &l.variants {
            rustc_abi::Variants::Single { index } => Some(index.as_usize()),
            rustc_abi::Variants::Multiple { tag, tag_encoding, .. } => {
                if tag.size(&self.tcx) != size {
                    return None;
                }
                match tag_encoding {
                    rustc_abi::TagEncoding::Direct => {
                        let ty::Adt(ad, _) = t.kind() else { return None };
                        ad.discriminants(self.tcx).find(|(_, d)| size.truncate(d.val) == bits).map(|(v, _)| v.as_usize())
                    }
                    rustc_abi::TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                        let rel = size.truncate(bits.wrapping_sub(*niche_start));
                        let (lo, hi) = (niche_variants.start.as_usize(), niche_variants.last.as_usize());
                        if rel <= (hi - lo) as u128 {
                            Some(lo + rel as usize)
                        } else {
                            Some(untagged_variant.as_usize())
                        }
                    }
                }
            }
            _ => None,
        }
    }

    fn operand(&mut self, op: &mir::Operand<'tcx>, body: &mir::Body<'tcx>, owner: Instance<'tcx>, root: DefId) -> J {
        match op {
            mir::Operand::Copy(p) => J::O(vec![("k", s("copy")), ("p", self.place(p, body))]),
            mir::Operand::Move(p) => J::O(vec![("k", s("move")), ("p", self.place(p, body))]),
            mir::Operand::Constant(c) => self.constant(c, owner, root),
            #[allow(unreachable_patterns)]
            _ => J::O(vec![("k", s("rtcheck"))]),
        }
    }

    fn rvalue(&mut self, r: &mir::Rvalue<'tcx>, body: &mir::Body<'tcx>, owner: Instance<'tcx>, root: DefId) -> J {
        let tcx = self.tcx;
        match r {
            mir::Rvalue::Use(op, _) => J::O(vec![("k", s("use")), ("o", self.operand(op, body, owner, root))]),
            mir::Rvalue::Repeat(op, n) => J::O(vec![
                ("k", s("repeat")),
                ("o", self.operand(op, body, owner, root)),
                ("n", n.try_to_target_usize(tcx).map(|x| J::I(x as i128)).unwrap_or(J::Null)),
            ]),
            mir::Rvalue::Ref(_, bk, p) => J::O(vec![
                ("k", s("ref")),
                ("mut", J::B(matches!(bk, mir::BorrowKind::Mut { .. }))),
                ("p", self.place(p, body)),
            ]),
            mir::Rvalue::RawPtr(_, p) => J::O(vec![("k", s("ref")), ("raw", J::B(true)), ("mut", J::B(true)), ("p", self.place(p, body))]),
            mir::Rvalue::Cast(k, op, t) => J::O(vec![
                ("k", s("cast")),
                ("ck", s(format!("{k:?}"))),
                ("o", self.operand(op, body, owner, root)),
                ("ty", self.ty(*t)),
            ]),
            mir::Rvalue::BinaryOp(b, ops) => J::O(vec![
                ("k", s("bin")),
                ("op", s(format!("{b:?}"))),
                ("l", self.operand(&ops.0, body, owner, root)),
                ("r", self.operand(&ops.1, body, owner, root)),
                ("ty", s(tystr(ops.0.ty(&body.local_decls, tcx)))),
            ]),
            mir::Rvalue::UnaryOp(u, op) => {
                J::O(vec![("k", s("un")), ("op", s(format!("{u:?}"))), ("o", self.operand(op, body, owner, root))])
            }
            mir::Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, tcx).ty;
                let tj = self.ty(t);
                let adt = t.ty_adt_def().map(|a| s(cpath(tcx, a.did()))).unwrap_or(J::Null);
                J::O(vec![("k", s("discr")), ("p", self.place(p, body)), ("ty", tj), ("adt", adt)])
            }
            mir::Rvalue::Aggregate(k, ops) => {
                let fs: Vec<J> = ops.iter().map(|o| self.operand(o, body, owner, root)).collect();
                let mut o = vec![("k", s("agg"))];
                match &**k {
                    mir::AggregateKind::Array(_) => o.push(("a", s("array"))),
                    mir::AggregateKind::Tuple => o.push(("a", s("tuple"))),
                    mir::AggregateKind::Adt(d, vi, _, _, _) => {
                        self.adt(*d);
                        o.push(("a", s("adt")));
                        o.push(("adt", s(cpath(tcx, *d))));
                        o.push(("v", J::I(vi.as_usize() as i128)));
                    }
                    mir::AggregateKind::Closure(d, args) => {
                        let inst = Instance::new_raw(*d, args);
                        let k = self.enqueue(inst, root);
                        o.push(("a", s("closure")));
                        o.push(("key", s(k)));
                    }
                    mir::AggregateKind::RawPtr(..) => o.push(("a", s("rawptr"))),
                    _ => o.push(("a", s("other"))),
                }
                o.push(("f", J::A(fs)));
                J::O(o)
            }
            mir::Rvalue::CopyForDeref(p) => {
                J::O(vec![("k", s("use")), ("o", J::O(vec![("k", s("copy")), ("p", self.place(p, body))]))])
            }
            mir::Rvalue::Reborrow(_, m, p) => J::O(vec![("k", s("ref")), ("mut", J::B(m.is_mut())), ("p", self.place(p, body))]),
            _ => J::O(vec![("k", s("other")), ("dbg", s(format!("{r:?}")))]),
        }
    }

    fn span(&self, sp: rustc_span::Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        s(format!("{}:{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line, lo.col.0 + 1))
    }

    fn body(&mut self, key: String, b: mir::Body<'tcx>, owner: Instance<'tcx>, root: DefId, kind: &'static str) {
        let tcx = self.tcx;
        let env = self.env(root);
        // substitute + normalise
        let identity = tcx.erase_and_anonymize_regions(GenericArgs::identity_for_item(tcx, owner.def_id()));
        let b = match tcx.try_instantiate_and_normalize_erasing_regions(owner.args, env, EarlyBinder::bind(tcx, b.clone())) {
            Ok(x) => x,
            Err(_) => b,
        };
        let locals: Vec<J> = b.local_decls.iter().map(|l| self.ty(l.ty)).collect();
        let mut names: Vec<J> = Vec::new();
        for v in &b.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.push(J::A(vec![J::I(p.local.as_usize() as i128), s(v.name.to_string())]));
                }
            }
        }
        let mut blocks: Vec<J> = Vec::new();
        for bb in b.basic_blocks.iter() {
            let mut st: Vec<J> = Vec::new();
            for x in &bb.statements {
                match &x.kind {
                    mir::StatementKind::Assign(bx) => {
                        let p = self.place(&bx.0, &b);
                        let r = self.rvalue(&bx.1, &b, owner, root);
                        st.push(J::O(vec![("p", p), ("r", r), ("sp", self.span(x.source_info.span))]));
                    }
                    mir::StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place, &b);
                        st.push(J::O(vec![("p", p), ("setdiscr", J::I(variant_index.as_usize() as i128))]));
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let term = match &t.kind {
                mir::TerminatorKind::Goto { target, .. } => J::O(vec![("k", s("goto")), ("t", J::I(target.as_usize() as i128))]),
                mir::TerminatorKind::SwitchInt { discr, targets } => {
                    let tys = tystr(discr.ty(&b.local_decls, tcx));
                    let d = self.operand(discr, &b, owner, root);
                    let ts: Vec<J> = targets.iter().map(|(v, t)| J::A(vec![s(v.to_string()), J::I(t.as_usize() as i128)])).collect();
                    J::O(vec![("k", s("switch")), ("o", d), ("ty", s(tys)), ("ts", J::A(ts)), ("else", J::I(targets.otherwise().as_usize() as i128))])
                }
                mir::TerminatorKind::Return => J::O(vec![("k", s("return"))]),
                mir::TerminatorKind::Unreachable => J::O(vec![("k", s("unreachable"))]),
                mir::TerminatorKind::UnwindResume | mir::TerminatorKind::UnwindTerminate(_) => J::O(vec![("k", s("resume"))]),
                mir::TerminatorKind::Drop { place, target, .. } => {
                    let p = self.place(place, &b);
                    let t = place.ty(&b.local_decls, tcx).ty;
                    J::O(vec![("k", s("drop")), ("p", p), ("ty", s(tystr(t))), ("t", J::I(target.as_usize() as i128))])
                }
                mir::TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(func, &b, owner, root);
                    let a: Vec<J> = args.iter().map(|x| self.operand(&x.node, &b, owner, root)).collect();
                    let at: Vec<J> = args.iter().map(|x| s(tystr(x.node.ty(&b.local_decls, tcx)))).collect();
                    let d = self.place(destination, &b);
                    J::O(vec![("k", s("call")), ("f", f), ("a", J::A(a)), ("at", J::A(at)), ("d", d), ("t", target.map(|t| J::I(t.as_usize() as i128)).unwrap_or(J::Null)), ("sp", sp.clone())])
                }
                mir::TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(cond, &b, owner, root);
                    let m = match &**msg {
                        mir::AssertKind::BoundsCheck { len, index } => {
                            J::A(vec![s("bounds"), self.operand(len, &b, owner, root), self.operand(index, &b, owner, root)])
                        }
                        mir::AssertKind::Overflow(op, l, r) => {
                            J::A(vec![s("overflow"), s(format!("{op:?}")), self.operand(l, &b, owner, root), self.operand(r, &b, owner, root)])
                        }
                        mir::AssertKind::DivisionByZero(l) => J::A(vec![s("divzero"), self.operand(l, &b, owner, root)]),
                        mir::AssertKind::RemainderByZero(l) => J::A(vec![s("remzero"), self.operand(l, &b, owner, root)]),
                        mir::AssertKind::OverflowNeg(l) => J::A(vec![s("overflowneg"), self.operand(l, &b, owner, root)]),
                        other => J::A(vec![s("other"), s(format!("{other:?}").split('(').next().unwrap_or("").to_string())]),
                    };
                    J::O(vec![("k", s("assert")), ("c", c), ("exp", J::B(*expected)), ("m", m), ("t", J::I(target.as_usize() as i128)), ("sp", sp.clone())])
                }
                mir::TerminatorKind::FalseEdge { real_target, .. } => J::O(vec![("k", s("goto")), ("t", J::I(real_target.as_usize() as i128))]),
                mir::TerminatorKind::FalseUnwind { real_target, .. } => J::O(vec![("k", s("goto")), ("t", J::I(real_target.as_usize() as i128))]),
                other => J::O(vec![("k", s("other")), ("dbg", s(format!("{other:?}")))]),
            };
            blocks.push(J::O(vec![("s", J::A(st)), ("t", term), ("c", J::B(bb.is_cleanup)), ("sp", sp)]));
        }
        let d = owner.def_id();
        let mut o = vec![
            ("key", s(key.clone())),
            ("path", s(cpath(tcx, d))),
            ("kind", s(kind)),
            ("crate", s(tcx.crate_name(d.krate).to_string())),
            ("span", self.span(tcx.def_span(d))),
            ("argc", J::I(b.arg_count as i128)),
            ("spread", b.spread_arg.map(|l| J::I(l.as_usize() as i128)).unwrap_or(J::Null)),
            ("locals", J::A(locals)),
            ("names", J::A(names)),
            ("blocks", J::A(blocks)),
        ];
        if d.is_local() {
            o.push(("root", J::B(tcx.erase_and_anonymize_regions(owner.args) == identity)));
            o.push(("pub", J::B(tcx.effective_visibilities(()).is_reachable(d.expect_local()))));
        }
        if tcx.def_kind(d) == DefKind::AssocFn {
            o.push(("name", s(tcx.item_name(d).to_string())));
            if let Some(im) = tcx.impl_of_assoc(d) {
                o.push(("impl_self", s(tystr(tcx.type_of(im).instantiate_identity().skip_norm_wip()))));
                if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                    o.push(("impl_trait", s(cpath(tcx, tr.skip_binder().def_id))));
                }
            }
        } else if matches!(tcx.def_kind(d), DefKind::Fn) {
            o.push(("name", s(tcx.item_name(d).to_string())));
        }
        self.bodies.insert(key, J::O(o));
    }

    fn run(&mut self) {
        while let Some((k, inst, root)) = self.queue.pop_front() {
            let d = inst.def_id();
            let tcx = self.tcx;
            let (b, kind) = match tcx.def_kind(d) {
                DefKind::Fn | DefKind::AssocFn => (tcx.optimized_mir(d).clone(), "fn"),
                DefKind::Closure => (tcx.optimized_mir(d).clone(), "closure"),
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::AnonConst => {
                    (tcx.mir_for_ctfe(d).clone(), "const")
                }
                DefKind::Static { .. } => (tcx.mir_for_ctfe(d).clone(), "static"),
                _ => continue,
            };
            if self.bodies.len() > 20000 {
                eprintln!("soupy-facts: too many bodies");
                break;
            }
            self.body(k, b, inst, root, kind);
        }
    }
}

/// every literal of a constant's initialiser, in source order with nesting (for the phf tables)
fn const_literals<'tcx>(tcx: TyCtxt<'tcx>, d: rustc_hir::def_id::LocalDefId) -> Option<J> {
    use rustc_hir as hir;
    fn lit(l: &hir::Lit) -> Option<J> {
        use rustc_ast_lit::*;
        lit_json(l)
    }
    fn go<'h>(tcx: TyCtxt<'h>, e: &'h hir::Expr<'h>) -> J {
        match &e.kind {
            hir::ExprKind::Lit(l) => lit(l).unwrap_or(J::Null),
            hir::ExprKind::Tup(es) => J::O(vec![("tup", J::A(es.iter().map(|x| go(tcx, x)).collect()))]),
            hir::ExprKind::Array(es) => J::O(vec![("arr", J::A(es.iter().map(|x| go(tcx, x)).collect()))]),
            hir::ExprKind::AddrOf(_, _, x) => go(tcx, x),
            hir::ExprKind::Cast(x, _) => go(tcx, x),
            hir::ExprKind::DropTemps(x) => go(tcx, x),
            hir::ExprKind::Unary(_, x) => J::O(vec![("un", go(tcx, x))]),
            hir::ExprKind::Struct(_, fs, _) => J::O(vec![(
                "struct",
                J::A(fs.iter().map(|f| J::A(vec![s(f.ident.to_string()), go(tcx, f.expr)])).collect()),
            )]),
            hir::ExprKind::Call(f, es) => {
                let mut v = vec![go(tcx, f)];
                v.extend(es.iter().map(|x| go(tcx, x)));
                J::O(vec![("call", J::A(v))])
            }
            hir::ExprKind::Path(_) => J::O(vec![("path", J::Null)]),
            hir::ExprKind::Block(b, _) => match b.expr {
                Some(x) if b.stmts.is_empty() => go(tcx, x),
                _ => J::Null,
            },
            _ => J::Null,
        }
    }
    let body = tcx.hir_maybe_body_owned_by(d)?;
    Some(go(tcx, body.value))
}
mod rustc_ast_lit {
    extern crate rustc_ast;
    use super::{s, J};
    pub fn lit_json(l: &rustc_hir::Lit) -> Option<J> {
        use rustc_ast::LitKind::*;
        Some(match &l.node {
            Str(x, _) => J::O(vec![("str", s(x.to_string()))]),
            Int(n, _) => J::O(vec![("int", s(n.get().to_string()))]),
            Char(c) => J::O(vec![("char", s(c.to_string()))]),
            Bool(b) => J::B(*b),
            _ => return None,
        })
    }
}

struct Cb;
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        let want = std::env::var("SOUPY_FACTS_CRATES").unwrap_or_default();
        if !want.split(',').any(|x| x == name) {
            return Compilation::Continue;
        }
        let Ok(dir) = std::env::var("SOUPY_FACTS_DIR") else { return Compilation::Continue };
        let mut cx = Cx { tcx, queue: VecDeque::new(), bodies: BTreeMap::new(), seen: HashMap::new(), adts: BTreeMap::new() };
        let mut consts: Vec<J> = Vec::new();
        let mut impls: Vec<J> = Vec::new();
        let mut items: Vec<J> = Vec::new();
        for &ld in tcx.mir_keys(()) {
            let d = ld.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Fn | DefKind::AssocFn => {
                    let inst = Instance::new_raw(d, GenericArgs::identity_for_item(tcx, d));
                    let inst = Instance { args: tcx.erase_and_anonymize_regions(inst.args), ..inst };
                    cx.enqueue(inst, d);
                }
                DefKind::Const { .. } | DefKind::Static { .. } => {
                    if let Some(j) = const_literals(tcx, ld) {
                        consts.push(J::O(vec![("path", s(cpath(tcx, d))), ("lits", j), ("span", cx.span(tcx.def_span(d)))]));
                    }
                }
                _ => {}
            }
        }
        // every local impl of a trait: resolved method table (own or default)
        for (tr, ims) in tcx.all_local_trait_impls(()) {
            for &im in ims {
                let Some(tref) = tcx.impl_opt_trait_ref(im.to_def_id()) else { continue };
                let tref = tref.instantiate_identity().skip_norm_wip();
                let mut ms: Vec<J> = Vec::new();
                if tr.is_local() || ["Iterator", "IntoIterator", "From", "TryFrom", "Clone", "Deref", "Copy"].contains(&tcx.item_name(*tr).as_str()) {
                    let own = tcx.impl_item_implementor_ids(im.to_def_id());
                    for it in tcx.associated_items(*tr).in_definition_order() {
                        if !matches!(it.kind, ty::AssocKind::Fn { .. }) {
                            continue;
                        }
                        if let Some(&o) = own.get(&it.def_id) {
                            let inst = Instance::new_raw(o, tcx.erase_and_anonymize_regions(GenericArgs::identity_for_item(tcx, o)));
                            let k = cx.enqueue(inst, o);
                            ms.push(J::O(vec![("name", s(it.name().to_string())), ("own", J::B(true)), ("key", s(k))]));
                        } else if tr.is_local() {
                            let args = GenericArgs::for_item(tcx, it.def_id, |p, _| {
                                if (p.index as usize) < tref.args.len() {
                                    tref.args[p.index as usize]
                                } else {
                                    tcx.mk_param_from_def(p)
                                }
                            });
                            let args = tcx.erase_and_anonymize_regions(args);
                            let inst = Instance::new_raw(it.def_id, args);
                            if tcx.is_mir_available(it.def_id) {
                                let k = cx.enqueue(inst, im.to_def_id());
                                ms.push(J::O(vec![("name", s(it.name().to_string())), ("own", J::B(false)), ("key", s(k))]));
                            }
                        }
                    }
                }
                impls.push(J::O(vec![
                    ("trait", s(cpath(tcx, *tr))),
                    ("traitname", s(tcx.item_name(*tr).to_string())),
                    ("self", s(tystr(tref.self_ty()))),
                    ("targs", J::A(tref.args.iter().skip(1).filter(|g| g.as_region().is_none()).map(|g| s(rustc_middle::ty::print::with_no_trimmed_paths!(g.to_string()))).collect())),
                    ("local_trait", J::B(tr.is_local())),
                    ("methods", J::A(ms)),
                    ("span", cx.span(tcx.def_span(im.to_def_id()))),
                    ("derived", J::B(tcx.is_automatically_derived(im.to_def_id()))),
                ]));
            }
        }
        // item list (for evidence and API rules)
        let ev = tcx.effective_visibilities(());
        for ld in tcx.hir_crate_items(()).definitions() {
            let d = ld.to_def_id();
            let k = tcx.def_kind(d);
            if matches!(k, DefKind::Fn | DefKind::AssocFn | DefKind::Struct | DefKind::Enum | DefKind::Union | DefKind::Trait | DefKind::Static { .. } | DefKind::Const { .. }) {
                if matches!(k, DefKind::Struct | DefKind::Enum | DefKind::Union) {
                    cx.adt(d);
                }
                let ty = if matches!(k, DefKind::Static { .. }) { tcx.type_of(d).instantiate_identity().skip_norm_wip().to_string() } else { String::new() };
                items.push(J::O(vec![
                    ("path", s(cpath(tcx, d))),
                    ("ty", s(ty)),
                    ("kind", s(format!("{k:?}"))),
                    ("pub", J::B(ev.is_reachable(ld))),
                    ("span", cx.span(tcx.def_span(d))),
                ]));
            }
        }
        cx.run();
        let out = J::O(vec![
            ("crate", s(name.clone())),
            ("cfg", J::A(tcx.sess.config.iter().filter(|(n, _)| n.as_str() == "feature").map(|(_, v)| s(v.map(|x| x.to_string()).unwrap_or_default())).collect())),
            ("bodies", J::A(cx.bodies.values().cloned().collect())),
            ("adts", J::A(cx.adts.iter().map(|(k, v)| J::A(vec![s(k.clone()), v.clone()])).collect())),
            ("consts", J::A(consts)),
            ("impls", J::A(impls)),
            ("items", J::A(items)),
        ]);
        let mut o = String::new();
        out.w(&mut o);
        std::fs::write(format!("{dir}/{name}.json"), o).expect("write facts");
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // as RUSTC_WORKSPACE_WRAPPER we get: driver rustc args…
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    if !args.iter().any(|a| a.starts_with("-Zmir-opt-level")) {
        args.push("-Zmir-opt-level=0".into());
        // debug-only pointer checks are not part of the program
        args.push("-Zmir-enable-passes=-CheckAlignment,-CheckNull,-CheckEnums".into());
    }
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb))
}
