//! rustc wrapper: behaves as rustc, and for the crates named in VSA_EXPORT additionally dumps the
//! monomorphic MIR reachable from the crate's non-generic functions (resolved callees, evaluated
//! constants, type layouts) as JSON into VSA_OUT.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;
extern crate rustc_public_bridge;
extern crate rustc_infer;
extern crate rustc_trait_selection;
#[macro_use]
extern crate rustc_public;

use ir::*;
use rustc_middle::ty::TyCtxt;
use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::crate_def::{CrateDef, CrateDefType};
use rustc_public::mir;
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::ty as sty;
use rustc_public::ty::{ConstantKind, RigidTy, TyKind as STyKind};
use rustc_public::rustc_internal as ri;
use rustc_public_bridge::IndexedVal;
use std::collections::HashMap;
use std::ops::ControlFlow;

const WORKSPACE: &[&str] = &["rac", "vru_kyber", "vru_noise", "vru_session", "vru_processor", "vru_tcp", "vru_udp", "vru_node", "client", "roots", "wire"];
/// crates whose functions are exported with their bodies (everything else is a leaf)
const DESCEND: &[&str] = &["core", "alloc", "generic_array", "subtle", "byteorder", "pq_kem", "typenum", "hkdf", "aead", "serde", "serde_core"];

fn descend(krate: &str, path: &str) -> bool {
    if WORKSPACE.contains(&krate) { return true }
    if !DESCEND.contains(&krate) { return false }
    let p = path;
    if krate == "alloc" {
        // only thin conversions; collections are modelled by the engine
        return p.contains("boxed::Box") && p.contains("convert::From") || p.contains("vec::Vec") && ["ops::Index", "convert::AsMut", "convert::AsRef", "borrow::Borrow"].iter().any(|s| p.contains(s));
    }
    if krate == "core" {
        if p.contains("str::Bytes") || p.ends_with("<impl str>::bytes") { return true }
        for s in ["core::fmt", "std::fmt", "core::panicking", "core::str", "std::str", "core::cell", "std::cell", "core::sync", "std::sync", "core::num::flt2dec", "core::num::fmt", "core::unicode", "core::hash", "core::any", "core::time", "core::alloc", "core::bstr", "core::net", "std::net", "core::ffi"] {
            if p.starts_with(s) || p.contains(&format!("<{s}")) || p.contains(&format!("as {s}")) { return false }
        }
    }
    true
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    p: Program,
    tymap: HashMap<sty::Ty, TyId>,
    fnmap: HashMap<String, FnId>,
    files: HashMap<String, u32>,
    queue: Vec<(FnId, Instance)>,
    spanmap: HashMap<(u32, u32), u32>,
}

fn def_path<D: CrateDef>(d: &D) -> String { d.name().to_string() }

impl<'tcx> Cx<'tcx> {
    fn span(&mut self, s: sty::Span) -> SpanId {
        let f = s.get_filename().to_string();
        let l = s.get_lines().start_line as u32;
        let fi = match self.files.get(&f) { Some(x) => *x, None => { let i = self.p.files.len() as u32; self.p.files.push(f.clone()); self.files.insert(f, i); i } };
        if let Some(x) = self.spanmap.get(&(fi, l)) { return *x }
        let i = self.p.spans.len() as u32;
        self.p.spans.push((fi, l));
        self.spanmap.insert((fi, l), i);
        i
    }
    fn ty(&mut self, t: sty::Ty) -> TyId {
        if let Some(i) = self.tymap.get(&t) { return *i }
        let t0 = t;
        let t: sty::Ty = ri::stable(self.tcx.erase_and_anonymize_regions(ri::internal(self.tcx, t)));
        if t != t0 { let i = self.ty(t); self.tymap.insert(t0, i); return i }
        if let Some(i) = self.tymap.get(&t) { return *i }
        let i = self.p.tys.len() as TyId;
        self.tymap.insert(t, i);
        let size = t.layout().ok().filter(|l| l.shape().is_sized()).map(|l| (l.shape().size.bytes()) as u64);
        let it = ri::internal(self.tcx, t);
        let env = rustc_middle::ty::TypingEnv::fully_monomorphized();
        let needs_drop = it.needs_drop(self.tcx, env);
        self.p.tys.push(Ty { name: it.to_string(), kind: TyKind::Other, size, needs_drop });
        let kind = self.ty_kind(t);
        self.p.tys[i as usize].kind = kind;
        i
    }
    fn norm(&self, t: sty::Ty) -> sty::Ty {
        let it = ri::internal(self.tcx, t);
        let env = rustc_middle::ty::TypingEnv::fully_monomorphized();
        let it = self.tcx.try_normalize_erasing_regions(env, rustc_middle::ty::Unnormalized::new_wip(it)).unwrap_or(it);
        ri::stable(it)
    }
    fn ty_kind(&mut self, t: sty::Ty) -> TyKind {
        let STyKind::RigidTy(r) = t.kind() else { return TyKind::Other };
        match r {
            RigidTy::Bool => TyKind::Bool,
            RigidTy::Char => TyKind::Char,
            RigidTy::Int(i) => TyKind::Int { bits: i.num_bytes() as u32 * 8, signed: true },
            RigidTy::Uint(i) => TyKind::Int { bits: i.num_bytes() as u32 * 8, signed: false },
            RigidTy::Float(_) => TyKind::Float(64),
            RigidTy::Never => TyKind::Never,
            RigidTy::Str => TyKind::Str,
            RigidTy::Array(e, n) => { let n = n.eval_target_usize().unwrap_or(u64::MAX); TyKind::Array(self.ty(e), n) }
            RigidTy::Slice(e) => TyKind::Slice(self.ty(e)),
            RigidTy::Tuple(ts) => TyKind::Tuple(ts.into_iter().map(|x| self.ty(x)).collect()),
            RigidTy::Ref(_, x, m) => TyKind::Ref(self.ty(x), m == mir::Mutability::Mut),
            RigidTy::RawPtr(x, m) => TyKind::Ptr(self.ty(x), m == mir::Mutability::Mut),
            RigidTy::Adt(d, args) => {
                let path = def_path(&d);
                let krate = d.krate().name.to_string();
                let kind = if d.kind().is_enum() { AdtKind::Enum } else if d.kind().is_union() { AdtKind::Union } else { AdtKind::Struct };
                let mut variants = vec![];
                for v in d.variants() {
                    let discr = if kind == AdtKind::Enum { d.discriminant_for_variant(v.idx()).val } else { 0 };
                    let fs = v.fields();
                    let mut fields = vec![];
                    for f in fs { let ft = self.norm(f.ty_with_args(&args)); fields.push((f.name.to_string(), self.ty(ft))); }
                    variants.push(Variant { name: v.name().to_string(), discr, fields });
                }
                let targs = args.0.iter().filter_map(|a| a.ty().copied()).collect::<Vec<_>>();
                let args = targs.into_iter().map(|x| self.ty(x)).collect();
                TyKind::Adt { path, krate, kind, is_box: d.is_box(), variants, args }
            }
            RigidTy::FnDef(d, args) => match Instance::resolve(d, &args) {
                Ok(i) => TyKind::FnDef(self.func(i)),
                Err(_) => TyKind::Other,
            },
            RigidTy::FnPtr(_) => TyKind::FnPtr,
            // a restricted range of a base type (NonNull and the like)
            RigidTy::Pat(b, _) => self.ty_kind(b),
            RigidTy::Closure(d, args) => {
                let it = ri::internal(self.tcx, t);
                let mut upvars = vec![];
                if let rustc_middle::ty::TyKind::Closure(_, ca) = it.kind() {
                    for u in ca.as_closure().upvar_tys() { let st = ri::stable(u); upvars.push(st); }
                }
                let upvars = upvars.into_iter().map(|x| self.ty(x)).collect();
                // the closure body itself: resolve with its own kind
                let kind = if let rustc_middle::ty::TyKind::Closure(_, ca) = it.kind() {
                    match ca.as_closure().kind() {
                        rustc_middle::ty::ClosureKind::Fn => sty::ClosureKind::Fn,
                        rustc_middle::ty::ClosureKind::FnMut => sty::ClosureKind::FnMut,
                        rustc_middle::ty::ClosureKind::FnOnce => sty::ClosureKind::FnOnce,
                    }
                } else { sty::ClosureKind::FnOnce };
                match Instance::resolve_closure(d, &args, kind) {
                    Ok(i) => TyKind::Closure { def: def_path(&d), body: self.func(i), upvars },
                    Err(_) => TyKind::Other,
                }
            }
            RigidTy::Dynamic(..) => TyKind::Dyn(self.p.tys[self.tymap[&t] as usize].name.clone()),
            _ => TyKind::Other,
        }
    }
    fn func(&mut self, i: Instance) -> FnId {
        let key = format!("{}|{}", i.mangled_name(), i.name());
        if let Some(x) = self.fnmap.get(&key) { return *x }
        let id = self.p.fns.len() as FnId;
        self.fnmap.insert(key, id);
        let kind = match i.kind {
            InstanceKind::Item => FnKind::Item,
            InstanceKind::Intrinsic | InstanceKind::LlvmIntrinsic => FnKind::Intrinsic,
            InstanceKind::Virtual { idx } => FnKind::Virtual(idx as u32),
            InstanceKind::Shim => FnKind::Shim,
        };
        let did = ri::internal(self.tcx, i.def.def_id());
        let path = if kind == FnKind::Intrinsic { i.intrinsic_name().map(|s| format!("intrinsic::{s}")).unwrap_or_else(|| i.name().to_string()) } else { self.tcx.def_path_str(did) };
        let krate = self.tcx.crate_name(did.krate).to_string();
        let span = rustc_public::rustc_internal::stable(self.tcx.def_span(did));
        let span = self.span(span);
        self.p.fns.push(Func { name: i.name().to_string(), path, krate, targs: vec![], args: vec![], ret: 0, kind, body: None, is_closure: false, span, iter: None });
        let targs: Vec<sty::Ty> = i.args().0.iter().filter_map(|a| a.ty().copied()).collect();
        let targs: Vec<TyId> = targs.into_iter().map(|t| self.ty(t)).collect();
        self.p.fns[id as usize].targs = targs;
        let ty = i.ty();
        match ty.kind() {
            STyKind::RigidTy(RigidTy::FnDef(..)) => {
                let it = ri::internal(self.tcx, ty);
                let sig = self.tcx.instantiate_bound_regions_with_erased(it.fn_sig(self.tcx));
                let ins: Vec<sty::Ty> = sig.inputs().iter().map(|t| ri::stable(self.tcx.erase_and_anonymize_regions(*t))).collect();
                let out: sty::Ty = ri::stable(self.tcx.erase_and_anonymize_regions(sig.output()));
                let ins = ins.into_iter().map(|t| { let t = self.norm(t); self.ty(t) }).collect();
                self.p.fns[id as usize].args = ins;
                let out = self.norm(out);
                let r = self.ty(out);
                self.p.fns[id as usize].ret = r;
            }
            STyKind::RigidTy(RigidTy::Closure(..)) => { self.p.fns[id as usize].is_closure = true; }
            _ => {}
        }
        let it = self.iteration(&self.p.fns[id as usize].path.clone(), &self.p.fns[id as usize].krate.clone(), &i);
        self.p.fns[id as usize].iter = it;
        self.queue.push((id, i));
        id
    }
    /// for a collection filled from an iterator: how the iterator is made and advanced
    fn iteration(&mut self, path: &str, krate: &str, i: &Instance) -> Option<(FnId, FnId)> {
        let last = path.rsplit("::").next().unwrap_or("");
        if krate != "alloc" || !["extend", "from_iter", "spec_extend", "collect"].contains(&last) { return None }
        let src = i.args().0.iter().filter_map(|a| a.ty().copied()).last()?;
        let mk = |cx: &Cx<'tcx>, did: rustc_hir::def_id::DefId, t: sty::Ty| -> Option<Instance> {
            let t = ri::internal(cx.tcx, t);
            let args = cx.tcx.mk_args(&[t.into()]);
            let env = rustc_middle::ty::TypingEnv::fully_monomorphized();
            rustc_middle::ty::Instance::try_resolve(cx.tcx, env, did, args).ok().flatten().map(ri::stable)
        };
        let a = mk(self, self.tcx.lang_items().into_iter_fn()?, src)?;
        let ai = self.func(a);
        let made = self.sig_out(&a)?;
        let b = mk(self, self.tcx.lang_items().next_fn()?, made)?;
        Some((ai, self.func(b)))
    }
    fn sig_out(&mut self, i: &Instance) -> Option<sty::Ty> {
        let it = ri::internal(self.tcx, i.ty());
        if !matches!(it.kind(), rustc_middle::ty::TyKind::FnDef(..)) { return None }
        let sig = self.tcx.instantiate_bound_regions_with_erased(it.fn_sig(self.tcx));
        let out: sty::Ty = ri::stable(self.tcx.erase_and_anonymize_regions(sig.output()));
        Some(self.norm(out))
    }
    fn drain(&mut self) {
        while let Some((id, i)) = self.queue.pop() {
            let (krate, path, kind) = { let f = &self.p.fns[id as usize]; (f.krate.clone(), f.path.clone(), f.kind.clone()) };
            let ok = match kind {
                FnKind::Item => descend(&krate, &path),
                FnKind::Shim => !path.contains("drop_in_place"),
                FnKind::Intrinsic => false,
                _ => false,
            };
            if !ok || !i.has_body() && kind != FnKind::Shim { continue }
            let body = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| i.body()));
            let Ok(Some(b)) = body else { continue };
            let b = self.body(&b);
            let f = &mut self.p.fns[id as usize];
            if f.args.is_empty() && f.is_closure {
                f.args = b.locals[1..=b.arg_count].to_vec();
                f.ret = b.locals[0];
            }
            f.body = Some(b);
        }
    }
    fn body(&mut self, b: &mir::Body) -> Body {
        let locals = b.locals().iter().map(|l| self.ty(l.ty)).collect();
        let lt = b.locals().to_vec();
        let vars = b.var_debug_info.iter().filter_map(|v| v.local().map(|l| (v.name.to_string(), l))).collect();
        let mut blocks = vec![];
        for bl in &b.blocks {
            let mut stmts = vec![];
            for s in &bl.statements {
                let k = match &s.kind {
                    mir::StatementKind::Assign(p, r) => { let p = self.place(p, &lt); Some(Stmt::Assign(p, self.rvalue(r, &lt))) }
                    mir::StatementKind::SetDiscriminant { place, variant_index } => { let p = self.place(place, &lt); Some(Stmt::SetDiscr(p, variant_index.to_index())) }
                    mir::StatementKind::StorageLive(l) => Some(Stmt::Live(*l)),
                    mir::StatementKind::StorageDead(l) => Some(Stmt::Dead(*l)),
                    mir::StatementKind::Intrinsic(mir::NonDivergingIntrinsic::Assume(o)) => Some(Stmt::Assume(self.operand(o, &lt))),
                    mir::StatementKind::Intrinsic(mir::NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                        let a = self.operand(&c.src, &lt); let b = self.operand(&c.dst, &lt); let n = self.operand(&c.count, &lt);
                        Some(Stmt::CopyNonOverlapping(a, b, n))
                    }
                    _ => None,
                };
                if let Some(k) = k { let sp = self.span(s.source_info.span); stmts.push((k, sp)); }
            }
            let term = self.term(&bl.terminator.kind, &lt);
            let span = self.span(bl.terminator.source_info.span);
            blocks.push(Block { stmts, term, span });
        }
        Body { locals, arg_count: b.arg_locals().len(), spread: b.spread_arg(), blocks, vars }
    }
    fn term(&mut self, k: &mir::TerminatorKind, lt: &[mir::LocalDecl]) -> Term {
        use mir::TerminatorKind as T;
        match k {
            T::Goto { target } => Term::Goto(*target),
            T::SwitchInt { discr, targets } => {
                let t = discr.ty(lt).map(|t| self.ty(t)).unwrap_or(0);
                Term::Switch(self.operand(discr, lt), t, targets.branches().collect(), targets.otherwise())
            }
            T::Return => Term::Return,
            T::Unreachable => Term::Unreachable,
            T::Resume | T::Abort => Term::Resume,
            T::Drop { place, target, .. } => Term::Drop(self.place(place, lt), *target),
            T::Call { func, args, destination, target, .. } => {
                let func = match func {
                    mir::Operand::Constant(c) if matches!(c.ty().kind(), STyKind::RigidTy(RigidTy::FnDef(..))) => {
                        let STyKind::RigidTy(RigidTy::FnDef(d, a)) = c.ty().kind() else { unreachable!() };
                        match Instance::resolve(d, &a) {
                            Ok(i) => Callee::Direct(self.func(i)),
                            Err(_) => Callee::Indirect(self.operand(func, lt)),
                        }
                    }
                    o => Callee::Indirect(self.operand(o, lt)),
                };
                let args = args.iter().map(|a| self.operand(a, lt)).collect();
                let dest = self.place(destination, lt);
                Term::Call { func, args, dest, target: *target }
            }
            T::Assert { cond, expected, msg, target, .. } => {
                use mir::AssertMessage as A;
                let (kind, ops) = match msg {
                    A::BoundsCheck { len, index } => ("bounds".to_string(), vec![len, index]),
                    A::Overflow(op, a, b) => (format!("overflow:{op:?}"), vec![a, b]),
                    A::OverflowNeg(a) => ("overflow:Neg".to_string(), vec![a]),
                    A::DivisionByZero(a) => ("div0".to_string(), vec![a]),
                    A::RemainderByZero(a) => ("rem0".to_string(), vec![a]),
                    _ => ("other".to_string(), vec![]),
                };
                let ops = ops.into_iter().map(|o| self.operand(o, lt)).collect();
                Term::Assert { cond: self.operand(cond, lt), expected: *expected, kind, ops, target: *target }
            }
            T::InlineAsm { .. } => Term::Other("asm".into()),
        }
    }
    fn place(&mut self, p: &mir::Place, lt: &[mir::LocalDecl]) -> Place {
        use mir::ProjectionElem as P;
        let proj = p.projection.iter().map(|e| match e {
            P::Deref => Proj::Deref,
            P::Field(i, t) => Proj::Field(*i, self.ty(*t)),
            P::Index(l) => Proj::Index(*l),
            P::ConstantIndex { offset, from_end, .. } => Proj::ConstIndex { offset: *offset, from_end: *from_end },
            P::Subslice { from, to, from_end } => Proj::Subslice { from: *from, to: *to, from_end: *from_end },
            P::Downcast(v) => Proj::Downcast(v.to_index()),
            P::OpaqueCast(t) => Proj::Cast(self.ty(*t)),
        }).collect();
        let ty = p.ty(lt).map(|t| self.ty(t)).unwrap_or(0);
        Place { local: p.local, proj, ty }
    }
    fn operand(&mut self, o: &mir::Operand, lt: &[mir::LocalDecl]) -> Operand {
        match o {
            mir::Operand::Copy(p) => Operand::Copy(self.place(p, lt)),
            mir::Operand::Move(p) => Operand::Move(self.place(p, lt)),
            mir::Operand::Constant(c) => { let t = c.ty(); let k = self.konst(&c.const_); Operand::Const(k, self.ty(t)) }
            mir::Operand::RuntimeChecks(_) => Operand::RuntimeChecks,
        }
    }
    fn konst(&mut self, c: &sty::MirConst) -> Const {
        let t = c.ty();
        if let STyKind::RigidTy(RigidTy::FnDef(d, a)) = t.kind() {
            return match Instance::resolve(d, &a) { Ok(i) => Const::Fn(self.func(i)), Err(_) => Const::Opaque("fn".into()) };
        }
        match c.kind() {
            ConstantKind::Allocated(a) => self.read(a, 0, t, 0),
            ConstantKind::ZeroSized => self.zst(t),
            ConstantKind::Ty(tc) => match tc.eval_target_usize() { Ok(v) => Const::Int(v as u128), Err(_) => Const::Opaque("tyconst".into()) },
            k => Const::Opaque(format!("{k:?}").chars().take(40).collect()),
        }
    }
    fn zst(&mut self, t: sty::Ty) -> Const { self.ty(t); Const::Zst }
    fn uint(&self, a: &sty::Allocation, off: usize, n: usize) -> Option<u128> {
        let mut v = 0u128;
        for i in 0..n { let b = (*a.bytes.get(off + i)?)?; v |= (b as u128) << (8 * i); }
        Some(v)
    }
    fn read(&mut self, a: &sty::Allocation, off: usize, t: sty::Ty, depth: u32) -> Const {
        if depth > 12 { return Const::Opaque("deep".into()) }
        let STyKind::RigidTy(r) = t.kind() else { return Const::Opaque("ty".into()) };
        if let RigidTy::Pat(b, _) = r { return self.read(a, off, b, depth) }
        let size = t.layout().ok().map(|l| l.shape().size.bytes()).unwrap_or(0);
        match r {
            RigidTy::Bool | RigidTy::Char | RigidTy::Int(_) | RigidTy::Uint(_) | RigidTy::Float(_) => self.uint(a, off, size).map(Const::Int).unwrap_or(Const::Undef),
            RigidTy::Array(e, n) => {
                let n = n.eval_target_usize().unwrap_or(0) as usize;
                let es = e.layout().ok().map(|l| l.shape().size.bytes()).unwrap_or(0);
                if matches!(e.kind(), STyKind::RigidTy(RigidTy::Uint(sty::UintTy::U8))) {
                    if let Some(v) = (0..n).map(|i| a.bytes.get(off + i).copied().flatten()).collect::<Option<Vec<u8>>>() { return Const::Bytes(v) }
                }
                if n > 4096 { return Const::Opaque("bigarray".into()) }
                Const::Arr((0..n).map(|i| self.read(a, off + i * es, e, depth + 1)).collect())
            }
            RigidTy::Tuple(ts) => {
                let sh = t.layout().unwrap().shape();
                let FieldsShape::Arbitrary { offsets } = sh.fields else { return Const::Zst };
                Const::Agg(0, ts.iter().enumerate().map(|(i, x)| self.read(a, off + offsets[i].bytes(), *x, depth + 1)).collect())
            }
            RigidTy::Closure(..) | RigidTy::FnDef(..) => Const::Zst,
            RigidTy::Adt(d, args) => {
                let Ok(l) = t.layout() else { return Const::Opaque("layout".into()) };
                let sh = l.shape();
                if d.kind().is_union() { return self.uint(a, off, size.min(16)).map(Const::Int).unwrap_or(Const::Undef) }
                let (vi, offs): (usize, Vec<usize>) = match &sh.variants {
                    VariantsShape::Single { index } => {
                        let offs = match &sh.fields { FieldsShape::Arbitrary { offsets } => offsets.iter().map(|o| o.bytes()).collect(), _ => vec![] };
                        (index.to_index(), offs)
                    }
                    VariantsShape::Empty => return Const::Opaque("empty".into()),
                    VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                        let toff = match &sh.fields { FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(), _ => 0 };
                        let tsz = match tag { rustc_public::abi::Scalar::Initialized { value, .. } | rustc_public::abi::Scalar::Union { value } => value.size(&rustc_public::target::MachineInfo::target()).bytes() };
                        // a relocation in a niche: the dataful variant
                        let has_prov = a.provenance.ptrs.iter().any(|(o, _)| *o == off + toff);
                        let Some(tv) = self.uint(a, off + toff, tsz) else { return Const::Undef };
                        let vi = match tag_encoding {
                            TagEncoding::Direct => d.variants_iter().position(|v| {
                                let m = if tsz >= 16 { u128::MAX } else { (1u128 << (8 * tsz)) - 1 };
                                d.discriminant_for_variant(v.idx()).val & m == tv
                            }).unwrap_or(0),
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                let m = if tsz >= 16 { u128::MAX } else { (1u128 << (8 * tsz)) - 1 };
                                let rel = tv.wrapping_sub(*niche_start) & m;
                                let n = (niche_variants.end().to_index() - niche_variants.start().to_index()) as u128;
                                if !has_prov && rel <= n { niche_variants.start().to_index() + rel as usize } else { untagged_variant.to_index() }
                            }
                        };
                        (vi, variants[vi].offsets.iter().map(|o| o.bytes()).collect())
                    }
                };
                let v = d.variants().into_iter().nth(vi).unwrap();
                let mut out = vec![];
                for (i, f) in v.fields().iter().enumerate() {
                    let ft = self.norm(f.ty_with_args(&args));
                    let o = offs.get(i).copied().unwrap_or(0);
                    out.push(self.read(a, off + o, ft, depth + 1));
                }
                self.ty(t);
                Const::Agg(vi, out)
            }
            RigidTy::Ref(_, x, _) | RigidTy::RawPtr(x, _) => {
                let Some((_, p)) = a.provenance.ptrs.iter().find(|(o, _)| *o == off) else { return self.uint(a, off, 8).map(Const::Int).unwrap_or(Const::Undef) };
                let base = self.uint(a, off, 8).unwrap_or(0) as usize;
                match GlobalAlloc::from(p.0) {
                    GlobalAlloc::Memory(m) => {
                        let xt = self.ty(x);
                        match x.kind() {
                            STyKind::RigidTy(RigidTy::Str) => {
                                let n = self.uint(a, off + 8, 8).unwrap_or(0) as usize;
                                let v: Vec<u8> = (0..n).map(|i| m.bytes.get(base + i).copied().flatten().unwrap_or(0)).collect();
                                Const::Ref(Box::new(Const::Str(String::from_utf8_lossy(&v).into_owned())), xt)
                            }
                            STyKind::RigidTy(RigidTy::Slice(e)) => {
                                let n = self.uint(a, off + 8, 8).unwrap_or(0) as usize;
                                let es = e.layout().ok().map(|l| l.shape().size.bytes()).unwrap_or(0);
                                if matches!(e.kind(), STyKind::RigidTy(RigidTy::Uint(sty::UintTy::U8))) {
                                    let v: Vec<u8> = (0..n).map(|i| m.bytes.get(base + i).copied().flatten().unwrap_or(0)).collect();
                                    return Const::Ref(Box::new(Const::Bytes(v)), xt);
                                }
                                if n > 4096 { return Const::Opaque("bigslice".into()) }
                                let v = (0..n).map(|i| self.read(&m, base + i * es, e, depth + 1)).collect();
                                Const::Ref(Box::new(Const::Arr(v)), xt)
                            }
                            STyKind::RigidTy(RigidTy::Dynamic(..)) => Const::Opaque("dyn".into()),
                            _ => { let v = self.read(&m, base, x, depth + 1); Const::Ref(Box::new(v), xt) }
                        }
                    }
                    GlobalAlloc::Static(s) => Const::Static(def_path(&s)),
                    GlobalAlloc::Function(i) => Const::Fn(self.func(i)),
                    _ => Const::Opaque("alloc".into()),
                }
            }
            RigidTy::FnPtr(_) => {
                let Some((_, p)) = a.provenance.ptrs.iter().find(|(o, _)| *o == off) else { return Const::Undef };
                match GlobalAlloc::from(p.0) { GlobalAlloc::Function(i) => Const::Fn(self.func(i)), _ => Const::Opaque("fnptr".into()) }
            }
            _ => Const::Opaque("const".into()),
        }
    }
    fn bin(op: &mir::BinOp) -> Bin {
        use mir::BinOp as B;
        match op {
            B::Add | B::AddUnchecked => Bin::Add, B::Sub | B::SubUnchecked => Bin::Sub, B::Mul | B::MulUnchecked => Bin::Mul,
            B::Div => Bin::Div, B::Rem => Bin::Rem, B::BitXor => Bin::Xor, B::BitAnd => Bin::And, B::BitOr => Bin::Or,
            B::Shl | B::ShlUnchecked => Bin::Shl, B::Shr | B::ShrUnchecked => Bin::Shr, B::Eq => Bin::Eq, B::Lt => Bin::Lt,
            B::Le => Bin::Le, B::Ne => Bin::Ne, B::Ge => Bin::Ge, B::Gt => Bin::Gt, B::Cmp => Bin::Cmp, B::Offset => Bin::Offset,
        }
    }
    fn rvalue(&mut self, r: &mir::Rvalue, lt: &[mir::LocalDecl]) -> Rvalue {
        use mir::Rvalue as R;
        match r {
            R::Use(o, _) => Rvalue::Use(self.operand(o, lt)),
            R::Ref(_, k, p) => { let m = k.to_mutable_lossy() == mir::Mutability::Mut; Rvalue::Ref(self.place(p, lt), m) }
            R::Reborrow(_, m, p) => { let m = *m == mir::Mutability::Mut; Rvalue::Ref(self.place(p, lt), m) }
            R::AddressOf(_, p) => Rvalue::RawPtr(self.place(p, lt)),
            R::BinaryOp(op, a, b) => { let a = self.operand(a, lt); Rvalue::Bin(Self::bin(op), a, self.operand(b, lt)) }
            R::CheckedBinaryOp(op, a, b) => { let a = self.operand(a, lt); Rvalue::Checked(Self::bin(op), a, self.operand(b, lt)) }
            R::UnaryOp(op, a) => { let u = match op { mir::UnOp::Not => Un::Not, mir::UnOp::Neg => Un::Neg, mir::UnOp::PtrMetadata => Un::PtrMeta }; Rvalue::Un(u, self.operand(a, lt)) }
            R::Cast(k, o, t) => {
                use mir::CastKind as C; use mir::PointerCoercion as PC;
                let k = match k {
                    C::IntToInt => CastK::IntToInt,
                    C::PointerCoercion(PC::Unsize) => CastK::Unsize,
                    C::PointerCoercion(PC::ReifyFnPointer(_)) | C::PointerCoercion(PC::ClosureFnPointer(_)) => CastK::ReifyFn,
                    C::PointerCoercion(_) | C::PtrToPtr | C::FnPtrToPtr | C::Subtype => CastK::PtrToPtr,
                    C::Transmute | C::BoxDerefTransmute => CastK::Transmute,
                    _ => CastK::Other,
                };
                let o = self.operand(o, lt);
                Rvalue::Cast(k, o, self.ty(*t))
            }
            R::Discriminant(p) => Rvalue::Discr(self.place(p, lt)),
            R::Len(p) => Rvalue::Len(self.place(p, lt)),
            R::Repeat(o, n) => { let o = self.operand(o, lt); Rvalue::Repeat(o, n.eval_target_usize().unwrap_or(u64::MAX)) }
            R::CopyForDeref(p) => Rvalue::Use(Operand::Copy(self.place(p, lt))),
            R::ThreadLocalRef(c) => Rvalue::ThreadLocal(c.name().to_string()),
            R::Aggregate(k, os) => {
                use mir::AggregateKind as A;
                let os2 = os.iter().map(|o| self.operand(o, lt)).collect();
                let k = match k {
                    A::Array(t) => AggK::Array(self.ty(*t)),
                    A::Tuple => AggK::Tuple,
                    A::Adt(d, v, args, _, f) => { let t = d.ty_with_args(args); let t = self.norm(t); AggK::Adt(self.ty(t), v.to_index(), *f) }
                    A::Closure(d, args) => AggK::Closure(self.ty(sty::Ty::new_closure(*d, args.clone()))),
                    A::RawPtr(t, m) => AggK::RawPtr(self.ty(sty::Ty::new_ptr(*t, *m))),
                    _ => AggK::Tuple,
                };
                Rvalue::Agg(k, os2)
            }
        }
    }
}

/// the abstract data types met in a type
fn held<'tcx>(tcx: TyCtxt<'tcx>, t: rustc_middle::ty::Ty<'tcx>) -> Vec<Held> {
    use rustc_middle::ty::{self, TyKind as K};
    fn go<'tcx>(tcx: TyCtxt<'tcx>, t: ty::Ty<'tcx>, by_ref: bool, out: &mut Vec<Held>) {
        match t.kind() {
            K::Ref(_, x, _) | K::RawPtr(x, _) => go(tcx, *x, true, out),
            K::Adt(d, a) => { out.push(Held { path: tcx.def_path_str(d.did()), args: a.types().map(|t| t.to_string()).collect(), by_ref }); for x in a.types() { go(tcx, x, by_ref, out) } }
            K::Tuple(v) => for x in v.iter() { go(tcx, x, by_ref, out) },
            K::Array(x, _) | K::Slice(x) => go(tcx, *x, by_ref, out),
            K::Param(p) => out.push(Held { path: p.name.to_string(), args: vec![], by_ref }),
            K::Alias(..) => { out.push(Held { path: t.to_string(), args: vec![], by_ref }) }
            _ => {}
        }
    }
    let mut out = vec![]; go(tcx, t, false, &mut out); out
}
/// functions called and closures made in a body, without instantiating it
fn calls(tcx: TyCtxt<'_>, did: rustc_span::def_id::DefId) -> Vec<String> {
    use rustc_middle::mir as m;
    use rustc_middle::ty::TyKind as K;
    let mut out: Vec<String> = vec![]; let mut todo = vec![did]; let mut seen = vec![];
    while let Some(d) = todo.pop() {
        if seen.contains(&d) || !tcx.is_mir_available(d) { continue }
        seen.push(d);
        let b = tcx.optimized_mir(d);
        for bb in b.basic_blocks.iter() {
            for st in &bb.statements { if let m::StatementKind::Assign(a) = &st.kind { if let m::Rvalue::Aggregate(k, _) = &a.1 { if let m::AggregateKind::Closure(c, _) = &**k { todo.push(*c) } } } }
            for c in b.required_consts() { let _ = c; }
            if let Some(t) = &bb.terminator { if let m::TerminatorKind::Call { func, args, .. } = &t.kind {
                for o in std::iter::once(func).chain(args.iter().map(|a| &a.node)) { if let m::Operand::Constant(c) = o { if let K::FnDef(f, _) = c.const_.ty().kind() { out.push(tcx.def_path_str(*f)) } } }
            } }
        }
    }
    out.sort(); out.dedup(); out
}
/// items of the workspace crates that other crates may name, by following public modules and re-exports
fn reachable(tcx: TyCtxt<'_>) -> Vec<rustc_span::def_id::DefId> {
    use rustc_hir::def::{DefKind, Res};
    let mut out = vec![];
    let mut todo: Vec<rustc_span::def_id::DefId> = vec![];
    for c in tcx.crates(()).iter().copied().chain([rustc_span::def_id::LOCAL_CRATE]) { if WORKSPACE.contains(&tcx.crate_name(c).as_str()) { todo.push(c.as_def_id()) } }
    while let Some(d) = todo.pop() {
        if out.contains(&d) { continue }
        out.push(d);
        if !matches!(tcx.def_kind(d), DefKind::Mod) { continue }
        let kids: Vec<_> = if let Some(l) = d.as_local() { tcx.module_children_local(l).iter().chain(&[]).map(|c| (c.res, c.vis)).collect() } else { tcx.module_children(d).iter().map(|c| (c.res, c.vis)).collect() };
        for (r, vis) in kids { if let (Res::Def(_, k), true) = (r, vis.is_public()) { if WORKSPACE.contains(&tcx.crate_name(k.krate).as_str()) { todo.push(k) } } }
    }
    out
}
/// free functions are nameable by path; methods of a type when the type or its trait is (foreign traits are)
fn nameable(tcx: TyCtxt<'_>, reach: &[rustc_span::def_id::DefId], did: rustc_span::def_id::DefId) -> bool {
    let ours = |d: rustc_span::def_id::DefId| WORKSPACE.contains(&tcx.crate_name(d.krate).as_str());
    if let Some(i) = tcx.impl_of_assoc(did) {
        return match tcx.impl_opt_trait_ref(i) {
            Some(t) => { let t = t.instantiate_identity().skip_norm_wip().def_id; !ours(t) || reach.contains(&t) }
            None => tcx.visibility(did).is_public() && tcx.type_of(i).instantiate_identity().skip_norm_wip().ty_adt_def().map_or(true, |a| !ours(a.did()) || reach.contains(&a.did())),
        };
    }
    if let Some(t) = tcx.trait_of_assoc(did) { return reach.contains(&t) }
    reach.contains(&did)
}
/// which of the traits that copy, print or serialize does a type implement?
fn probe<'tcx>(tcx: TyCtxt<'tcx>, p: &mut Program, name: &str, t: rustc_middle::ty::Ty<'tcx>) {
    use rustc_infer::infer::TyCtxtInferExt;
    use rustc_middle::ty;
    use rustc_trait_selection::infer::InferCtxtExt;
    let t = tcx.try_normalize_erasing_regions(ty::TypingEnv::fully_monomorphized(), ty::Unnormalized::new(t)).unwrap_or(t);
    let (infcx, env) = tcx.infer_ctxt().build_with_typing_env(ty::TypingEnv::fully_monomorphized());
    for tr in tcx.all_traits_including_private() {
        let krate = tcx.crate_name(tr.krate).to_string(); let n = tcx.item_name(tr).to_string();
        let want: &[&str] = match krate.as_str() {
            "core" => &["Clone", "Copy", "Default", "Debug", "Display", "LowerHex", "UpperHex", "Binary", "Octal", "LowerExp", "UpperExp", "Pointer", "Hash", "Deref"],
            "alloc" => &["ToString", "ToOwned"],
            "rac" => &["LineValid", "Line"],
            "serde" | "serde_core" => &["Serialize", "Deserialize", "DeserializeOwned"],
            "hex" => &["ToHex"],
            _ => &[],
        };
        if !want.contains(&n.as_str()) { continue }
        let args = ty::GenericArgs::for_item(tcx, tr, |g, _| match g.kind { ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(), ty::GenericParamDefKind::Type { .. } => t.into(), _ => unreachable!() });
        let holds = infcx.type_implements_trait(tr, args, env).may_apply();
        p.probes.push(ProbeFact { probe: name.into(), ty: t.to_string(), trait_: format!("{krate}::{n}"), holds });
    }
}

fn export(tcx: TyCtxt<'_>) -> ControlFlow<()> {
    let out = std::env::var("VSA_OUT").unwrap();
    let krate = rustc_public::local_crate();
    let mut cx = Cx { tcx, p: Program::default(), tymap: HashMap::new(), fnmap: HashMap::new(), files: HashMap::new(), queue: vec![], spanmap: HashMap::new() };
    cx.p.krate = krate.name.to_string();
    for item in rustc_public::all_local_items() {
        if !matches!(item.kind(), rustc_public::ItemKind::Fn) { continue }
        if item.requires_monomorphization() { continue }
        let Ok(i) = Instance::try_from(item) else { continue };
        let id = cx.func(i);
        cx.p.roots.push(id);
    }
    cx.drain();
    let reach = reachable(tcx);
    // impl and signature facts of all workspace crates in the graph
    let mut crates = rustc_public::external_crates();
    crates.push(rustc_public::local_crate());
    for c in crates {
        let n = c.name.to_string();
        if !WORKSPACE.contains(&n.as_str()) { continue }
        let mut ids: Vec<rustc_span::def_id::DefId> = vec![];
        for i in c.trait_impls() {
            let did = ri::internal(tcx, i.def_id());
            let tr = tcx.impl_trait_ref(did).instantiate_identity().skip_norm_wip();
            let self_ty = tr.self_ty();
            let self_adt = self_ty.ty_adt_def().map(|a| tcx.def_path_str(a.did())).unwrap_or_default();
            if tcx.impl_polarity(did) == rustc_middle::ty::ImplPolarity::Negative { continue }
            cx.p.impls.push(ImplFact { krate: n.clone(), trait_: tcx.def_path_str(tr.def_id), self_ty: self_ty.to_string(), self_adt, text: tr.to_string() });
            ids.push(did);
        }
        for d in &reach { if tcx.crate_name(d.krate).as_str() != n || !matches!(tcx.def_kind(*d), rustc_hir::def::DefKind::Struct | rustc_hir::def::DefKind::Enum | rustc_hir::def::DefKind::Union) { continue }
            let a = tcx.adt_def(*d);
            for f in a.all_fields() { cx.p.fields.push(FieldFact { adt: tcx.def_path_str(*d), name: f.name.to_string(), held: held(tcx, tcx.type_of(f.did).instantiate_identity().skip_norm_wip()), public: f.vis.is_public() }) }
        }
        for f in c.fn_defs() {
            let did = ri::internal(tcx, f.def_id());
            let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip().skip_binder();
            cx.p.sigs.push(SigFact { krate: n.clone(), path: tcx.def_path_str(did), public: tcx.visibility(did).is_public(), reachable: nameable(tcx, &reach, did), inputs: sig.inputs().iter().map(|t| t.to_string()).collect(), output: sig.output().to_string(),
                ins: sig.inputs().iter().map(|t| held(tcx, *t)).collect(), out: held(tcx, sig.output()), calls: calls(tcx, did) });
            if n == cx.p.krate && tcx.def_path_str(did).starts_with("probe::") { for t in sig.inputs() { probe(tcx, &mut cx.p, &tcx.def_path_str(did), *t) } }
        }
    }
    let name = format!("{}/{}.json", out, cx.p.krate);
    std::fs::create_dir_all(&out).unwrap();
    std::fs::write(&name, serde_json::to_vec(&cx.p).unwrap()).unwrap();
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // invoked as a RUSTC_WRAPPER: argv[1] is the real rustc
    let real = args.remove(1);
    let name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned();
    let wanted = std::env::var("VSA_EXPORT").unwrap_or_default();
    let hit = name.as_ref().map_or(false, |n| wanted.split(',').any(|w| w == n));
    if !hit {
        let st = std::process::Command::new(real).args(&args[1..]).status().unwrap();
        std::process::exit(st.code().unwrap_or(101));
    }
    let r = run_with_tcx!(&args, |tcx| export(tcx));
    if r.is_err() && !matches!(r, Err(rustc_public::CompilerError::Interrupted(_))) { std::process::exit(1) }
}
