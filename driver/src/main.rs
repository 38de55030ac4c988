//! MIR extractor: a rustc driver that dumps the type-checked program (MIR as built, instantiated per
//! call-site generic arguments, with resolved callees) of the workspace crate as JSON.
//! It never runs any of the code.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_driver_impl;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod json;
use json::J;
use rustc_hir::def::DefKind;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use rustc_span::def_id::{DefId, LocalDefId};
use rustc_span::Span;
use std::collections::{HashMap, VecDeque};

struct Cb;

thread_local! {
    /// Clones of the MIR as built, saved before borrow checking or constant evaluation steal them.
    static SAVED: std::cell::RefCell<HashMap<LocalDefId, Body<'static>>> = Default::default();
}

fn save_mir_built<'tcx>(tcx: TyCtxt<'tcx>, def: LocalDefId) -> &'tcx rustc_data_structures::steal::Steal<Body<'tcx>> {
    let r = (rustc_interface::DEFAULT_QUERY_PROVIDERS.queries.mir_built)(tcx, def);
    let b: Body<'tcx> = r.borrow().clone();
    // SAFETY: the clone is only used inside `after_expansion`, while the same `TyCtxt` is alive.
    let b: Body<'static> = unsafe { std::mem::transmute(b) };
    SAVED.with(|s| s.borrow_mut().insert(def, b));
    r
}

/// Foreign functions whose (optimised, cross-crate) MIR is dumped too, so that thin generic wrappers
/// of the standard library are analysed rather than modelled.
fn foreign_wanted(path: &str, krate: &str) -> bool {
    if path.contains("fmt::") || path.contains("debug_fmt") || path.contains("unpack") || path.contains("panicking") { return false; }
    if krate == "packed_struct" { return true; }
    if krate == "core" || krate == "std" || krate == "alloc" {
        const OK: &[&str] = &[
            "option::", "result::", "task::", "ops::", "cmp::", "convert::", "pin::", "mem::replace", "mem::take", "mem::swap",
            "slice::index", "array::", "num::", "bool::", "default::", "future::ready", "future::Ready", "ops::function",
            "std::ops", "std::option", "std::result", "std::task", "std::cmp", "std::convert", "clone::", "slice::", "vec::", "string::", "boxed::", "iter::",
        ];
        return OK.iter().any(|p| path.contains(p));
    }
    false
}

struct Dumper<'tcx> {
    tcx: TyCtxt<'tcx>,
    built: HashMap<LocalDefId, Body<'tcx>>,
    types: HashMap<Ty<'tcx>, usize>,
    type_rows: Vec<J>,
    inst_ids: HashMap<(DefId, GenericArgsRef<'tcx>, DefId), usize>,
    queue: VecDeque<(usize, DefId, GenericArgsRef<'tcx>, DefId, usize)>,
    bodies: Vec<J>,
}

impl<'tcx> Dumper<'tcx> {
    fn env(&self, d: DefId) -> TypingEnv<'tcx> {
        TypingEnv::post_analysis(self.tcx, d)
    }
    fn path(&self, d: DefId) -> String {
        // Unambiguous, crate-qualified path.
        self.tcx.def_path_str(d)
    }
    fn span(&self, s: Span) -> J {
        let sm = self.tcx.sess.source_map();
        let s = s.source_callsite();
        let lo = sm.lookup_char_pos(s.lo());
        J::S(format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line))
    }
    fn norm<T: rustc_middle::ty::TypeFoldable<TyCtxt<'tcx>>>(&self, v: T, args: GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> T {
        let v = ty::EarlyBinder::bind(self.tcx, v).instantiate(self.tcx, args);
        match self.tcx.try_normalize_erasing_regions(env, v.clone()) {
            Ok(x) => x,
            Err(_) => self.tcx.erase_and_anonymize_regions(v.skip_norm_wip()),
        }
    }
    fn ty(&mut self, t: Ty<'tcx>, envd: DefId) -> usize {
        if let Some(&i) = self.types.get(&t) { return i; }
        let id = self.type_rows.len();
        self.types.insert(t, id);
        self.type_rows.push(J::Null);
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = vec![("s", J::S(format!("{t}")))];
        match *t.kind() {
            ty::Bool => o.push(("k", "bool".into())),
            ty::Char => o.push(("k", "char".into())),
            ty::Int(i) => { o.push(("k", "int".into())); o.push(("signed", J::B(true))); o.push(("bits", J::I(i.bit_width().unwrap_or(64) as i128))); o.push(("ptr", J::B(i.bit_width().is_none()))); }
            ty::Uint(i) => { o.push(("k", "int".into())); o.push(("signed", J::B(false))); o.push(("bits", J::I(i.bit_width().unwrap_or(64) as i128))); o.push(("ptr", J::B(i.bit_width().is_none()))); }
            ty::Str => o.push(("k", "str".into())),
            ty::Never => o.push(("k", "never".into())),
            ty::Slice(e) => { let e = self.ty(e, envd); o.push(("k", "slice".into())); o.push(("el", J::I(e as i128))); }
            ty::Array(e, n) => {
                let e = self.ty(e, envd); o.push(("k", "array".into())); o.push(("el", J::I(e as i128)));
                if let Some(n) = n.try_to_target_usize(tcx) { o.push(("len", J::I(n as i128))); }
            }
            ty::Ref(_, e, m) => { let e = self.ty(e, envd); o.push(("k", "ref".into())); o.push(("el", J::I(e as i128))); o.push(("mut", J::B(m.is_mut()))); }
            ty::RawPtr(e, m) => { let e = self.ty(e, envd); o.push(("k", "ptr".into())); o.push(("el", J::I(e as i128))); o.push(("mut", J::B(m.is_mut()))); }
            ty::Tuple(ts) => { let v = ts.iter().map(|x| J::I(self.ty(x, envd) as i128)).collect(); o.push(("k", "tuple".into())); o.push(("els", J::A(v))); }
            ty::FnDef(d, a) => { let a = a.skip_binder(); o.push(("k", "fndef".into())); o.push(("path", self.path(d).into())); 
                let env = self.env(envd);
                if let Ok(Some(i)) = Instance::try_resolve(tcx, env, d, a) { if let InstanceKind::Item(rd) = i.def { o.push(("rpath", self.path(rd).into())); if let Some(b) = self.want(rd, i.args, envd, 0) { o.push(("body", J::I(b as i128))); } } }
                if matches!(tcx.def_kind(d), DefKind::Ctor(..)) { o.push(("ctor", J::B(true))); let v = tcx.parent(d); let (adt, vi) = match tcx.def_kind(v) { DefKind::Variant => { let ad = tcx.parent(v); (ad, tcx.adt_def(ad).variant_index_with_id(v).as_u32()) } _ => (v, 0) };
                    o.push(("adt", self.path(adt).into())); o.push(("variant", J::I(vi as i128))); }
            }
            ty::FnPtr(..) => o.push(("k", "fnptr".into())),
            ty::Dynamic(preds, _) => { o.push(("k", "dyn".into())); if let Some(p) = preds.principal_def_id() { o.push(("trait", self.path(p).into())); } }
            ty::Param(p) => { o.push(("k", "param".into())); o.push(("name", p.name.as_str().into())); }
            ty::Alias(..) => o.push(("k", "alias".into())),
            ty::Closure(d, a) => {
                o.push(("k", "closure".into())); o.push(("path", self.path(d).into()));
                if let Some(b) = self.want(d, a, envd, 0) { o.push(("body", J::I(b as i128))); }
                let ups = a.as_closure().upvar_tys(); let v = ups.iter().map(|x| J::I(self.ty(x, envd) as i128)).collect(); o.push(("els", J::A(v)));
            }
            ty::Coroutine(d, a) => {
                o.push(("k", "coroutine".into())); o.push(("path", self.path(d).into()));
                if let Some(b) = self.want(d, a, envd, 0) { o.push(("body", J::I(b as i128))); }
                let ups = a.as_coroutine().upvar_tys(); let v = ups.iter().map(|x| J::I(self.ty(x, envd) as i128)).collect(); o.push(("els", J::A(v)));
            }
            ty::Adt(def, args) => {
                o.push(("k", "adt".into())); o.push(("path", self.path(def.did()).into())); o.push(("local", J::B(def.did().is_local())));
                o.push(("akind", if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" }.into()));
                o.push(("args", J::A(args.types().map(|x| J::I(self.ty(x, envd) as i128)).collect())));
                let big = !def.did().is_local() && def.is_struct() && !["option", "result", "task", "pin", "ops", "packed_struct", "future", "marker"].iter().any(|m| self.path(def.did()).contains(m));
                if !big && !def.is_union() {
                    let env = self.env(envd);
                    let discrs: HashMap<_, _> = if def.is_enum() { def.discriminants(tcx).map(|(v, d)| (v, d.val)).collect() } else { HashMap::new() };
                    let mut vs = vec![];
                    for (vi, v) in def.variants().iter_enumerated() {
                        let mut fs = vec![];
                        for f in &v.fields {
                            let fty = tcx.type_of(f.did).instantiate(tcx, args);
                            let fty = match tcx.try_normalize_erasing_regions(env, fty) { Ok(x) => x, Err(_) => tcx.erase_and_anonymize_regions(fty.skip_norm_wip()) };
                            let ft = self.ty(fty, envd);
                            let vis = if f.vis.is_public() { "pub" } else { "priv" };
                            fs.push(J::O(vec![("n", f.name.as_str().into()), ("t", J::I(ft as i128)), ("vis", vis.into())]));
                        }
                        let mut vo = vec![("n", v.name.as_str().into()), ("f", J::A(fs))];
                        if let Some(d) = discrs.get(&vi) { vo.push(("d", J::I(*d as i128))); }
                        vs.push(J::O(vo));
                    }
                    o.push(("variants", J::A(vs)));
                }
            }
            _ => o.push(("k", "other".into())),
        }
        self.type_rows[id] = J::O(o);
        id
    }
    /// Queue the body of (def, args) for dumping; None if we have no MIR for it or do not want it.
    fn want(&mut self, d: DefId, args: GenericArgsRef<'tcx>, envd: DefId, depth: usize) -> Option<usize> {
        let args = self.tcx.erase_and_anonymize_regions(args);
        if let Some(&i) = self.inst_ids.get(&(d, args, envd)) { return Some(i); }
        if let Some(l) = d.as_local() {
            if !self.built.contains_key(&l) { return None; }
        } else {
            let k = self.tcx.crate_name(d.krate);
            let p = self.path(d);
            if depth > 8 || !foreign_wanted(&p, k.as_str()) && !self.tcx.is_closure_like(d) { return None; }
            if !self.tcx.is_mir_available(d) { return None; }
        }
        let id = self.inst_ids.len();
        self.inst_ids.insert((d, args, envd), id);
        self.queue.push_back((id, d, args, envd, depth));
        Some(id)
    }
    fn place(&mut self, p: &Place<'tcx>, cx: &Cx<'tcx>) -> J {
        let mut pr = vec![];
        for e in p.projection.iter() {
            pr.push(match e {
                ProjectionElem::Deref => J::S("*".into()),
                ProjectionElem::Field(f, t) => { let t = self.norm(t, cx.args, cx.env); let t = self.ty(t, cx.envd); J::A(vec![J::S("f".into()), J::I(f.as_u32() as i128), J::I(t as i128)]) }
                ProjectionElem::Index(l) => J::A(vec![J::S("i".into()), J::I(l.as_u32() as i128)]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::A(vec![J::S("ci".into()), J::I(offset as i128), J::I(min_length as i128), J::B(from_end)]),
                ProjectionElem::Subslice { from, to, from_end } => J::A(vec![J::S("ss".into()), J::I(from as i128), J::I(to as i128), J::B(from_end)]),
                ProjectionElem::Downcast(_, v) => J::A(vec![J::S("d".into()), J::I(v.as_u32() as i128)]),
                _ => J::S("id".into()),
            });
        }
        J::A(vec![J::I(p.local.as_u32() as i128), J::A(pr)])
    }
    fn const_bytes(&self, v: ConstValue, t: Ty<'tcx>) -> Option<J> {
        let tcx = self.tcx;
        match v {
            ConstValue::Scalar(s) => {
                if let Ok(i) = s.try_to_scalar_int() {
                    let size = i.size();
                    let raw = i.to_bits(size);
                    let val = if let ty::Int(_) = t.kind() { size.sign_extend(raw) } else { raw as i128 };
                    return Some(J::O(vec![("int", J::I(val))]));
                }
                // reference to something: try to read &[u8; N]
                if let ty::Ref(_, inner, _) = t.kind() {
                    if let ty::Array(e, n) = inner.kind() {
                        if *e == tcx.types.u8 {
                            let n = n.try_to_target_usize(tcx)?;
                            if let mir::interpret::Scalar::Ptr(p, _) = s {
                                let (prov, off) = p.prov_and_relative_offset();
                                if let mir::interpret::GlobalAlloc::Memory(a) = tcx.global_alloc(prov.alloc_id()) {
                                    let o = off.bytes() as usize;
                                    let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(o..o + n as usize);
                                    return Some(J::O(vec![("bytes", J::A(b.iter().map(|x| J::I(*x as i128)).collect()))]));
                                }
                            }
                        }
                    }
                }
                None
            }
            ConstValue::ZeroSized => Some(J::O(vec![("zst", J::B(true))])),
            ConstValue::Slice { .. } => {
                let b = v.try_get_slice_bytes_for_diagnostics(tcx)?;
                if let ty::Ref(_, inner, _) = t.kind() {
                    if inner.is_str() { return Some(J::O(vec![("str", J::S(String::from_utf8_lossy(b).into_owned()))])); }
                    return Some(J::O(vec![("bytes", J::A(b.iter().map(|x| J::I(*x as i128)).collect()))]));
                }
                None
            }
            ConstValue::Indirect { alloc_id, offset } => {
                if let mir::interpret::GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) {
                    let a = a.inner();
                    if a.provenance().ptrs().is_empty() {
                        let env = TypingEnv::fully_monomorphized();
                        let sz = tcx.layout_of(env.as_query_input(t)).ok()?.size.bytes() as usize;
                        let o = offset.bytes() as usize;
                        if o + sz <= a.len() {
                            let b = a.inspect_with_uninit_and_ptr_outside_interpreter(o..o + sz);
                            return Some(J::O(vec![("raw", J::A(b.iter().map(|x| J::I(*x as i128)).collect()))]));
                        }
                    }
                }
                None
            }
        }
    }
    fn constant(&mut self, c: &ConstOperand<'tcx>, cx: &Cx<'tcx>) -> J {
        let tcx = self.tcx;
        let k = self.norm(c.const_, cx.args, cx.env);
        let t = k.ty();
        let tid = self.ty(t, cx.envd);
        let mut o = vec![("t", J::I(tid as i128))];
        if let ty::FnDef(..) = t.kind() { o.push(("fn", J::B(true))); return J::O(vec![("const", J::O(o))]); }
        if let Const::Val(ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _)), _) = k {
            if let Some(rustc_middle::mir::interpret::GlobalAlloc::Static(d)) = tcx.try_get_global_alloc(p.provenance.alloc_id()) {
                let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let s = format!("{st}");
                if tcx.is_mutable_static(d) || !st.is_freeze(tcx, cx.env) && !s.contains("OnceLock<") && !s.contains("LazyLock<") && !s.ends_with("sync::Once") {
                    o.push(("static", self.path(d).into()));
                }
            }
        }
        if let Const::Unevaluated(u, _) = k {
            o.push(("path", self.path(u.def).into()));
            if let Some(p) = u.promoted { o.push(("promoted", J::I(p.as_u32() as i128)));
                if !u.args.has_param() || true {
                    if let Some(j) = self.promoted_value(u, cx) { o.push(("pv", j)); }
                }
            }
        }
        if !k.has_non_region_param() {
            if let Ok(v) = k.eval(tcx, cx.env, rustc_span::DUMMY_SP) {
                if let Some(j) = self.const_bytes(v, t) { o.push(("v", j)); }
                // named adt constants of simple structs: destructure
            }
        } else if let Const::Ty(_, _) = k {
            o.push(("cparam", J::S(format!("{k}"))));
        }
        if let Const::Unevaluated(u, _) = k { if k.has_non_region_param() { 
            // associated const of a generic: try to resolve to an item with a body
            if let Ok(Some(i)) = Instance::try_resolve(tcx, cx.env, u.def, u.args) {
                if let InstanceKind::Item(rd) = i.def { o.push(("rpath", self.path(rd).into())); if rd.is_local() { if let Some(b) = self.want(rd, i.args, cx.envd, cx.depth + 1) { o.push(("body", J::I(b as i128))); } } }
            }
        } }
        J::O(vec![("const", J::O(o))])
    }
    fn promoted_value(&mut self, _u: UnevaluatedConst<'tcx>, _cx: &Cx<'tcx>) -> Option<J> { None }
    fn operand(&mut self, op: &Operand<'tcx>, cx: &Cx<'tcx>) -> J {
        match op {
            Operand::Copy(p) => J::O(vec![("copy", self.place(p, cx))]),
            Operand::Move(p) => J::O(vec![("move", self.place(p, cx))]),
            Operand::Constant(c) => self.constant(c, cx),
            _ => J::O(vec![("rtcheck", J::B(true))]),
        }
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>, cx: &Cx<'tcx>) -> J {
        match r {
            Rvalue::Use(o, _) => J::A(vec!["use".into(), self.operand(o, cx)]),
            Rvalue::Repeat(o, n) => { let n = self.norm(*n, cx.args, cx.env); J::A(vec!["repeat".into(), self.operand(o, cx), match n.try_to_target_usize(self.tcx) { Some(n) => J::I(n as i128), None => J::Null }]) }
            Rvalue::Ref(_, bk, p) => J::A(vec!["ref".into(), self.place(p, cx), J::S(match bk { BorrowKind::Shared => "shared", BorrowKind::Fake(_) => "fake", BorrowKind::Mut { .. } => "mut" }.into())]),
            Rvalue::RawPtr(_, p) => J::A(vec!["ref".into(), self.place(p, cx), "raw".into()]),
            Rvalue::Reborrow(_, _, p) => J::A(vec!["use".into(), J::O(vec![("copy", self.place(p, cx))])]),
            Rvalue::CopyForDeref(p) => J::A(vec!["use".into(), J::O(vec![("copy", self.place(p, cx))])]),
            Rvalue::ThreadLocalRef(d) => J::A(vec!["tls".into(), self.path(*d).into()]),
            Rvalue::Cast(k, o, t) => { let t = self.norm(*t, cx.args, cx.env); let t = self.ty(t, cx.envd); J::A(vec!["cast".into(), J::S(format!("{k:?}")), self.operand(o, cx), J::I(t as i128)]) }
            Rvalue::BinaryOp(b, x) => J::A(vec!["bin".into(), J::S(format!("{b:?}")), self.operand(&x.0, cx), self.operand(&x.1, cx)]),
            Rvalue::UnaryOp(b, x) => J::A(vec!["un".into(), J::S(format!("{b:?}")), self.operand(x, cx)]),
            Rvalue::Discriminant(p) => J::A(vec!["discr".into(), self.place(p, cx)]),
            Rvalue::WrapUnsafeBinder(o, _) => J::A(vec!["use".into(), self.operand(o, cx)]),
            Rvalue::Aggregate(k, fs) => {
                let ops: Vec<J> = fs.iter().map(|f| self.operand(f, cx)).collect();
                let kind = match **k {
                    AggregateKind::Array(_) => J::A(vec!["array".into()]),
                    AggregateKind::Tuple => J::A(vec!["tuple".into()]),
                    AggregateKind::Adt(d, v, a, _, _) => { let t = self.tcx.type_of(d).instantiate(self.tcx, a).skip_norm_wip(); let t = self.norm(t, cx.args, cx.env); let t = self.ty(t, cx.envd); J::A(vec!["adt".into(), J::I(t as i128), J::I(v.as_u32() as i128)]) }
                    AggregateKind::Closure(d, a) => { let t = Ty::new_closure(self.tcx, d, a); let t = self.norm(t, cx.args, cx.env); let t = self.ty(t, cx.envd); J::A(vec!["closure".into(), J::I(t as i128)]) }
                    AggregateKind::Coroutine(d, a) => { let t = Ty::new_coroutine(self.tcx, d, a); let t = self.norm(t, cx.args, cx.env); let t = self.ty(t, cx.envd); J::A(vec!["coroutine".into(), J::I(t as i128)]) }
                    AggregateKind::RawPtr(..) => J::A(vec!["rawptr".into()]),
                    _ => J::A(vec!["other".into()]),
                };
                J::A(vec!["agg".into(), kind, J::A(ops)])
            }
        }
    }
    fn callee(&mut self, func: &Operand<'tcx>, cx: &Cx<'tcx>) -> J {
        let tcx = self.tcx;
        if let Operand::Constant(c) = func {
            let k = self.norm(c.const_, cx.args, cx.env);
            if let ty::FnDef(d, a) = *k.ty().kind() {
                let a = a.skip_binder();
                let mut o = vec![("path", J::S(self.path(d))), ("krate", tcx.crate_name(d.krate).as_str().into())];
                if let Some(tr) = tcx.trait_of_assoc(d) { o.push(("trait", self.path(tr).into())); }
                o.push(("name", J::S(tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default())));
                o.push(("targs", J::A(a.types().map(|x| J::I(self.ty(x, cx.envd) as i128)).collect())));
                let cargs: Vec<J> = a.consts().map(|x| x.try_to_target_usize(tcx).map(|n| J::I(n as i128)).unwrap_or(J::Null)).collect();
                o.push(("cargs", J::A(cargs)));
                if matches!(tcx.def_kind(d), DefKind::Ctor(..)) { o.push(("ctor", J::I(self.ty(k.ty(), cx.envd) as i128))); }
                match Instance::try_resolve(tcx, cx.env, d, a) {
                    Ok(Some(i)) => {
                        o.push(("rpath", self.path(i.def_id()).into()));
                        let kind = match i.def { InstanceKind::Item(_) => "item", InstanceKind::Intrinsic(_) => "intrinsic", InstanceKind::Virtual(..) => "virtual", _ => "shim" };
                        o.push(("rkind", kind.into()));
                        o.push(("rkrate", tcx.crate_name(i.def_id().krate).as_str().into()));
                        if let InstanceKind::Item(rd) = i.def {
                            if let Some(b) = self.want(rd, i.args, cx.envd, if rd.is_local() { 0 } else { cx.depth + 1 }) { o.push(("body", J::I(b as i128))); }
                        }
                    }
                    _ => {}
                }
                let sig = tcx.try_normalize_erasing_regions(cx.env, tcx.fn_sig(d).instantiate(tcx, a).map(|s| tcx.instantiate_bound_regions_with_erased(s)));
                if let Ok(sig) = sig { let r = self.ty(sig.output(), cx.envd); o.push(("ret", J::I(r as i128))); }
                return J::O(o);
            }
        }
        J::O(vec![("indirect", self.operand(func, cx))])
    }
    fn dump_body(&mut self, id: usize, d: DefId, args: GenericArgsRef<'tcx>, envd: DefId, depth: usize) {
        let tcx = self.tcx;
        let body: Body<'tcx> = match d.as_local() { Some(l) => self.built[&l].clone(), None => tcx.instance_mir(InstanceKind::Item(d)).clone() };
        let cx = Cx { args, env: self.env(envd), envd, depth };
        let mut o: Vec<(&'static str, J)> = vec![("id", J::I(id as i128)), ("path", self.path(d).into()), ("krate", tcx.crate_name(d.krate).as_str().into()), ("argc", J::I(body.arg_count as i128)), ("span", self.span(body.span)), ("env", self.path(envd).into()), ("local", J::B(d.is_local()))];
        o.push(("inst", J::S(tcx.def_path_str_with_args(d, args))));
        let mut locals = vec![];
        for l in body.local_decls.iter() { let t = self.norm(l.ty, args, cx.env); locals.push(J::I(self.ty(t, envd) as i128)); }
        o.push(("locals", J::A(locals)));
        if let Some(s) = body.spread_arg { o.push(("spread", J::I(s.as_u32() as i128))); }
        let mut names = vec![];
        for v in &body.var_debug_info { if let VarDebugInfoContents::Place(p) = &v.value { names.push(J::A(vec![v.name.as_str().into(), self.place(p, &cx)])); } }
        o.push(("names", J::A(names)));
        let mut bbs = vec![];
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(a) => { let sp = self.span(s.source_info.span); st.push(J::A(vec!["=".into(), self.place(&a.0, &cx), self.rvalue(&a.1, &cx), sp])) }
                    StatementKind::SetDiscriminant { place, variant_index } => st.push(J::A(vec!["setd".into(), self.place(place, &cx), J::I(variant_index.as_u32() as i128)])),
                    StatementKind::StorageDead(l) => st.push(J::A(vec!["dead".into(), J::I(l.as_u32() as i128)])),
                    StatementKind::StorageLive(l) => st.push(J::A(vec!["live".into(), J::I(l.as_u32() as i128)])),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let term = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec!["goto".into(), J::I(target.as_u32() as i128)]),
                TerminatorKind::FalseEdge { real_target, .. } => J::A(vec!["goto".into(), J::I(real_target.as_u32() as i128)]),
                TerminatorKind::FalseUnwind { real_target, .. } => J::A(vec!["goto".into(), J::I(real_target.as_u32() as i128)]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let ts: Vec<J> = targets.iter().map(|(v, b)| J::A(vec![J::I(v as i128), J::I(b.as_u32() as i128)])).collect();
                    let dt = discr.ty(&body.local_decls, tcx); let dt = self.norm(dt, args, cx.env); let dt = self.ty(dt, envd);
                    J::A(vec!["switch".into(), self.operand(discr, &cx), J::A(ts), J::I(targets.otherwise().as_u32() as i128), J::I(dt as i128)])
                }
                TerminatorKind::Return => J::A(vec!["return".into()]),
                TerminatorKind::Unreachable => J::A(vec!["unreachable".into()]),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) | TerminatorKind::CoroutineDrop => J::A(vec!["unwind".into()]),
                TerminatorKind::Drop { place, target, .. } => J::A(vec!["drop".into(), self.place(place, &cx), J::I(target.as_u32() as i128)]),
                TerminatorKind::Call { func, args: cargs, destination, target, .. } => {
                    let c = self.callee(func, &cx);
                    let a: Vec<J> = cargs.iter().map(|x| self.operand(&x.node, &cx)).collect();
                    let at: Vec<J> = cargs.iter().map(|x| { let t = x.node.ty(&body.local_decls, tcx); let t = self.norm(t, args, cx.env); J::I(self.ty(t, envd) as i128) }).collect();
                    J::A(vec!["call".into(), c, J::A(a), self.place(destination, &cx), target.map(|t| J::I(t.as_u32() as i128)).unwrap_or(J::Null), sp.clone(), J::A(at)])
                }
                TerminatorKind::TailCall { .. } | TerminatorKind::InlineAsm { .. } => J::A(vec!["unsupported".into()]),
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match &**msg { AssertKind::BoundsCheck { .. } => "bounds".to_string(), AssertKind::Overflow(op, ..) => format!("overflow:{op:?}"), AssertKind::OverflowNeg(_) => "overflow:Neg".into(), AssertKind::DivisionByZero(_) => "div0".into(), AssertKind::RemainderByZero(_) => "rem0".into(), _ => "other".into() };
                    J::A(vec!["assert".into(), self.operand(cond, &cx), J::B(*expected), J::S(m), J::I(target.as_u32() as i128), sp.clone()])
                }
                TerminatorKind::Yield { resume, resume_arg, .. } => J::A(vec!["yield".into(), J::I(resume.as_u32() as i128), self.place(resume_arg, &cx)]),
            };
            bbs.push(J::O(vec![("s", J::A(st)), ("t", term), ("sp", sp), ("cl", J::B(bb.is_cleanup))]));
        }
        o.push(("blocks", J::A(bbs)));
        self.bodies.push(J::O(o));
    }
}
/// the crate is to be compiled without the unix family
fn foreign_family() -> bool {
    std::env::var("ZFAMILY").as_deref() == Ok("nonunix")
        && std::env::args().collect::<Vec<_>>().windows(2).any(|w| w[0] == "--crate-name" && w[1] == std::env::var("ZDUMP_CRATE").unwrap_or("zippity".into()))
}

/// Collects every item of other crates the crate mentions, with the place of the mention.
struct Mentions<'tcx> { tcx: TyCtxt<'tcx>, body: Option<rustc_hir::BodyId>, out: Vec<(String, String)> }
impl<'tcx> Mentions<'tcx> {
    fn note(&mut self, d: DefId, sp: Span, id: rustc_hir::HirId) {
        if d.is_local() { return; }
        let p = rustc_middle::ty::print::with_no_trimmed_paths!(self.tcx.def_path_str(d));
        let _ = sp;
        let mut q = id.owner.def_id.to_def_id();
        while matches!(self.tcx.def_kind(q), DefKind::Closure) { q = self.tcx.parent(q); }
        let own = rustc_middle::ty::print::with_no_trimmed_paths!(self.tcx.def_path_str(q));
        self.out.push((own, p));
    }
}
impl<'tcx> rustc_hir::intravisit::Visitor<'tcx> for Mentions<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::OnlyBodies;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> { self.tcx }
    fn visit_nested_body(&mut self, id: rustc_hir::BodyId) {
        let old = self.body.replace(id);
        let b = self.tcx.hir_body(id);
        self.visit_body(b);
        self.body = old;
    }
    fn visit_path(&mut self, path: &rustc_hir::Path<'tcx>, id: rustc_hir::HirId) {
        if let Some(d) = path.res.opt_def_id() { self.note(d, path.span, id); }
        rustc_hir::intravisit::walk_path(self, path)
    }
    fn visit_qpath(&mut self, q: &'tcx rustc_hir::QPath<'tcx>, id: rustc_hir::HirId, _sp: Span) {
        if let (Some(b), rustc_hir::QPath::TypeRelative(..)) = (self.body, q) {
            if let Some(d) = self.tcx.typeck_body(b).qpath_res(q, id).opt_def_id() { self.note(d, q.span(), id); }
        }
        rustc_hir::intravisit::walk_qpath(self, q, id)
    }
    fn visit_expr(&mut self, e: &'tcx rustc_hir::Expr<'tcx>) {
        if let (Some(b), rustc_hir::ExprKind::MethodCall(..)) = (self.body, &e.kind) {
            if let Some(d) = self.tcx.typeck_body(b).type_dependent_def_id(e.hir_id) { self.note(d, e.span, e.hir_id); }
        }
        rustc_hir::intravisit::walk_expr(self, e)
    }
}

struct Cx<'tcx> { args: GenericArgsRef<'tcx>, env: TypingEnv<'tcx>, envd: DefId, depth: usize }

impl rustc_driver_impl::Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::interface::Config) {
        if foreign_family() {
            // compile the crate as on a platform that is neither unix nor windows
            config.track_state = Some(Box::new(|sess| {
                // SAFETY: runs right after the session was created, before anything has looked at its configuration.
                let cfg = unsafe { &mut *(&raw const sess.config).cast_mut() };
                cfg.retain(|(k, v)| {
                    let v = v.map(|v| v.to_string()).unwrap_or_default();
                    !(k.as_str() == "unix" || k.as_str() == "target_family" || k.as_str() == "target_os" && v == "linux" || k.as_str() == "target_env")
                });
                cfg.insert((rustc_span::Symbol::intern("target_os"), Some(rustc_span::Symbol::intern("none"))));
            }));
        }
        config.override_queries = Some(|_, providers| providers.queries.mir_built = save_mir_built);
    }
    fn after_expansion<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver_impl::Compilation {
        let Ok(out) = std::env::var("ZDUMP_OUT") else { return rustc_driver_impl::Compilation::Continue };
        let krate = tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).to_string();
        if krate != std::env::var("ZDUMP_CRATE").unwrap_or("zippity".into()) { return rustc_driver_impl::Compilation::Continue }
        let mut built = HashMap::new();
        let owners: Vec<LocalDefId> = tcx.hir_body_owners().collect();
        for d in &owners {
            let _ = tcx.mir_built(*d);
            if let Some(b) = SAVED.with(|s| s.borrow_mut().remove(d)) {
                let b: Body<'tcx> = unsafe { std::mem::transmute::<Body<'static>, Body<'tcx>>(b) };
                built.insert(*d, b);
            }
        }
        tcx.dcx().abort_if_errors();
        let mut dm = Dumper { tcx, built, types: HashMap::new(), type_rows: vec![], inst_ids: HashMap::new(), queue: VecDeque::new(), bodies: vec![] };
        let mut roots = vec![];
        for d in &owners {
            let did = d.to_def_id();
            let k = tcx.def_kind(did);
            if !matches!(k, DefKind::Fn | DefKind::AssocFn | DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. }) { continue; }
            let args = ty::GenericArgs::identity_for_item(tcx, did);
            let args = tcx.erase_and_anonymize_regions(args);
            let id = dm.want(did, args, did, 0);
            let mut o: Vec<(&'static str, J)> = vec![("path", dm.path(did).into()), ("kind", J::S(format!("{k:?}"))), ("name", J::S(tcx.opt_item_name(did).map(|s| s.to_string()).unwrap_or_default())), ("span", dm.span(tcx.def_span(did)))];
            if let Some(i) = id { o.push(("body", J::I(i as i128))); }
            o.push(("pub", J::B(tcx.effective_visibilities(()).is_reachable(*d))));
            o.push(("derived", J::B(tcx.def_span(did).from_expansion())));
            if let Some(im) = tcx.impl_of_assoc(did) {
                let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                let st = tcx.erase_and_anonymize_regions(st);
                let stid = dm.ty(st, did); o.push(("self_ty", J::I(stid as i128)));
                if let Some(tr) = tcx.impl_opt_trait_ref(im) { o.push(("trait", dm.path(tr.skip_binder().def_id).into())); }
            }
            if let Some(tr) = tcx.trait_of_assoc(did) { o.push(("in_trait", dm.path(tr).into())); }
            if matches!(k, DefKind::Fn | DefKind::AssocFn) {
                o.push(("async", J::B(tcx.asyncness(did).is_async())));
                let sig = tcx.instantiate_bound_regions_with_erased(tcx.fn_sig(did).instantiate_identity().skip_norm_wip());
                let env = dm.env(did);
                let ins: Vec<J> = sig.inputs().iter().map(|t| { let t = tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(*t)).unwrap_or(*t); let t = tcx.erase_and_anonymize_regions(t); J::I(dm.ty(t, did) as i128) }).collect();
                o.push(("inputs", J::A(ins)));
                let t = sig.output(); let t = tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(t)).unwrap_or(t); let t = tcx.erase_and_anonymize_regions(t);
                let t = dm.ty(t, did);
                o.push(("output", J::I(t as i128)));
            }
            if let DefKind::Static { mutability, .. } = k { o.push(("static_mut", J::B(mutability.is_mut()))); }
            roots.push(J::O(o));
        }
        while let Some((id, d, a, e, depth)) = dm.queue.pop_front() {
            if dm.bodies.len() > 12000 { break; }
            dm.dump_body(id, d, a, e, depth);
        }
        let j = J::O(vec![("crate", krate.into()), ("roots", J::A(roots)), ("types", J::A(std::mem::take(&mut dm.type_rows))), ("bodies", J::A(std::mem::take(&mut dm.bodies)))]);
        let mut s = String::new();
        j.write(&mut s);
        std::fs::write(&out, s).expect("cannot write dump");
        rustc_driver_impl::Compilation::Continue
    }
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver_impl::Compilation {
        let krate = tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).to_string();
        if krate != std::env::var("ZDUMP_CRATE").unwrap_or("zippity".into()) { return rustc_driver_impl::Compilation::Continue }
        if let Ok(out) = std::env::var("ZMENTIONS_OUT") {
            let mut v = Mentions { tcx, body: None, out: vec![] };
            tcx.hir_visit_all_item_likes_in_crate(&mut v);
            v.out.sort();
            v.out.dedup();
            let mut s = String::new();
            for (a, b) in v.out { s.push_str(&format!("{a}\t{b}\n")); }
            std::fs::write(&out, s).expect("cannot write mentions");
        }
        rustc_driver_impl::Compilation::Continue
    }
}
fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    args.remove(0);
    rustc_driver_impl::compiler_entrypoint(&args, &mut Cb);
}
