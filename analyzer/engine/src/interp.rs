//! Abstract interpretation of exported MIR: every scalar is a value number (a term with an interval), memory is
//! a set of typed objects, branches are joined at their postdominator, loops whose exit depends on data are
//! solved by a fixpoint with widening.
use crate::cfg::{Cfg, EXIT};
use crate::term::*;
use fxhash::{FxHashMap, FxHashSet};
use ir::*;
use std::rc::Rc;

pub type Ct = u32;
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum C { Zst, Sc(u16, bool), Arr(Ct, u64), Slice(Ct), St(Rc<[Ct]>), En(Rc<[Rc<[Ct]>]>, Rc<[u128]>), Ptr, Opq(String) }
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Obj { S(u32), H(u32), C(u32), Z }
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Step { F(u32), V(u32, u32), I(T), Sub(T, T), Wrap }
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct P { pub obj: Obj, pub steps: Vec<Step> }
#[derive(Clone, Debug)]
pub enum Val { Undef, T(T), Agg(Rc<Vec<Val>>), Enum(Rc<(T, Vec<Val>)>), Ptr(Rc<P>), Fn(FnId), Ite(Rc<(T, Val, Val)>) }
#[derive(Clone, Default)]
pub struct State { pub stack: Vec<Val>, pub heap: Vec<Val>, pub pc: Vec<(T, bool)> }
pub struct Out { pub to: usize, pub cond: T, pub st: State }
#[derive(Clone, Copy)]
struct Frame { f: FnId, base: usize }
#[derive(Clone, Debug)]
pub struct Alarm { pub kind: String, pub func: FnId, pub ws: FnId, pub span: SpanId, pub pc: Vec<(T, bool)>, pub cond: T, pub text: String }
#[derive(Clone, Debug)]
pub struct Branch { pub func: FnId, pub ws: FnId, pub span: SpanId, pub cond: T, pub what: &'static str, pub taint: u64 }

/// a noteworthy operation of a modelled library
#[derive(Clone, Debug)]
pub struct Event { pub kind: String, pub terms: Vec<T>, pub func: FnId, pub pc: Vec<(T, bool)> }

#[derive(Clone)]
struct Ti { ct: Ct, trans: Option<usize> }

/// what a model of a function decided
pub enum M { Ret(Val), Diverge, No }
pub type Model = Rc<dyn Fn(&mut Interp, &mut State, FnId, &[Val]) -> M>;

pub struct Interp<'p> {
    pub p: &'p Program,
    pub t: Terms,
    pub cts: Vec<C>,
    ctix: FxHashMap<C, Ct>,
    ti: Vec<Option<Ti>>,
    stack_ct: Vec<Ct>,
    pub heap_ct: Vec<Ct>,
    ext: FxHashMap<T, u32>,
    ext_of: FxHashMap<u32, T>,
    consts: Vec<(Val, Ct)>,
    constix: FxHashMap<usize, Val>,
    cfgs: FxHashMap<FnId, Rc<Cfg>>,
    pub alarms: Vec<Alarm>,
    pub branches: Vec<Branch>,
    pub lost: Vec<String>,
    pub chain: Vec<FnId>,
    pub seen: FxHashSet<FnId>,
    pub steps: u64,
    pub limit: u64,
    pub ok_asserts: FxHashMap<(FnId, SpanId), u64>,
    pub models: Vec<Model>,
    modelix: FxHashMap<FnId, usize>,
    pub leaf_calls: Vec<(FnId, Vec<Val>, Option<Val>, Vec<(T, bool)>)>,
    pub events: Vec<Event>,
    /// branches and indices that depend on unknown values
    pub steered: u64,
    /// outcome assumed for the verification of messages of unknown origin
    pub force: Option<bool>,
    /// crates whose types stay opaque
    pub hide: Vec<&'static str>,
    /// number of bytes that text of unknown origin decodes to
    pub decoded: usize,
    /// largest value of unknown 64-bit numbers
    pub top: u128,
    pub log: bool,
    pub trace: bool,
    ws: Vec<bool>,
    cur_span: SpanId,
    ws_span: SpanId,
}

const NONE_T: T = Terms::FALSE;
pub const VAR: u32 = 1_000_000;
fn vfield(v: u32, i: u32) -> u32 { VAR + 1 + v * 1000 + i }

const OWN: &[&str] = &["core", "alloc", "std", "generic_array", "subtle", "typenum", "byteorder", "pq_kem", "serde", "serde_core", "base64", "rac", "vru_kyber", "vru_noise", "vru_session", "vru_processor", "vru_tcp", "vru_udp", "vru_node", "client", "roots", "wire"];

impl<'p> Interp<'p> {
    pub fn new(p: &'p Program) -> Self {
        let ws = p.fns.iter().map(|f| crate::util::is_ws(&f.krate)).collect();
        Interp { p, t: Terms::new(), cts: vec![], ctix: Default::default(), ti: vec![None; p.tys.len()], stack_ct: vec![], heap_ct: vec![], ext: Default::default(), ext_of: Default::default(), consts: vec![], constix: Default::default(), cfgs: Default::default(), alarms: vec![], branches: vec![], lost: vec![], chain: vec![], seen: Default::default(), steps: 0, limit: 300_000_000, ok_asserts: Default::default(), models: vec![], modelix: Default::default(), leaf_calls: vec![], events: vec![], steered: 0, force: None, hide: vec![], decoded: 0, top: u64::MAX as u128, log: false, trace: false, ws, cur_span: 0, ws_span: 0 }
    }
    // ------------------------------------------------------------ types
    pub fn mk(&mut self, c: C) -> Ct { if let Some(i) = self.ctix.get(&c) { return *i } let i = self.cts.len() as Ct; self.cts.push(c.clone()); self.ctix.insert(c, i); i }
    pub fn c(&self, ct: Ct) -> &C { &self.cts[ct as usize] }
    fn tinfo(&mut self, t: TyId) -> Ti {
        if let Some(i) = &self.ti[t as usize] { return i.clone() }
        let ty = &self.p.tys[t as usize];
        let zst = ty.size == Some(0);
        let mut trans = None;
        let c = match &ty.kind {
            _ if zst && !matches!(ty.kind, TyKind::Ref(..) | TyKind::Ptr(..)) => C::Zst,
            TyKind::Bool => C::Sc(1, false),
            TyKind::Char => C::Sc(32, false),
            TyKind::Int { bits, signed } => C::Sc(*bits as u16, *signed),
            TyKind::Float(b) => C::Sc(*b as u16, false),
            TyKind::Str => { let b = self.mk(C::Sc(8, false)); C::Slice(b) }
            TyKind::Array(e, n) => { let e = self.ct(*e); C::Arr(e, *n) }
            TyKind::Slice(e) => { let e = self.ct(*e); C::Slice(e) }
            TyKind::Ref(..) | TyKind::Ptr(..) | TyKind::FnPtr => C::Ptr,
            TyKind::Tuple(v) => { let v = v.clone(); self.struct_ct(&v, &mut trans) }
            TyKind::Closure { upvars, .. } => { let v = upvars.clone(); self.struct_ct(&v, &mut trans) }
            TyKind::Adt { path, krate, kind, variants, args, is_box, .. } => {
                let ga = krate == "generic_array" && path.ends_with("::GenericArray");
                if ga { let e = args[0]; let es = self.p.tys[e as usize].size.unwrap_or(1).max(1); let n = ty.size.unwrap_or(0) / es; let e = self.ct(e); C::Arr(e, n) }
                else if krate == "alloc" && (path.ends_with("::Vec") || path.ends_with("vec::IntoIter")) { C::Ptr }
                else if krate == "wire" && path.contains("racm::Toy") { C::Opq(ty.name.clone()) }
                else if krate == "curve25519_dalek" && path.ends_with("::CompressedEdwardsY") { let b = self.mk(C::Sc(8, false)); C::Arr(b, 32) }
                else if !OWN.contains(&krate.as_str()) && !path.ends_with("montgomery::MontgomeryPoint") || self.hide.contains(&krate.as_str()) || krate == "core" && path.contains("fmt::") { C::Opq(ty.name.clone()) }
                else if *kind == AdtKind::Enum {
                    let vs: Vec<Rc<[Ct]>> = variants.iter().map(|v| v.fields.iter().map(|f| self.ct(f.1)).collect::<Vec<_>>().into()).collect();
                    C::En(vs.into(), variants.iter().map(|v| v.discr).collect::<Vec<_>>().into())
                } else if *is_box { let fs: Vec<TyId> = variants[0].fields.iter().map(|f| f.1).collect(); self.struct_ct(&fs, &mut trans); trans = Some(0); C::Ptr }
                else { let fs: Vec<TyId> = variants[0].fields.iter().map(|f| f.1).collect(); self.struct_ct(&fs, &mut trans) }
            }
            _ => C::Opq(ty.name.clone()),
        };
        let ct = self.mk(c);
        let r = Ti { ct, trans };
        self.ti[t as usize] = Some(r.clone());
        r
    }
    fn struct_ct(&mut self, fs: &[TyId], trans: &mut Option<usize>) -> C {
        let nz: Vec<usize> = (0..fs.len()).filter(|i| self.p.tys[fs[*i] as usize].size != Some(0)).collect();
        if nz.len() == 1 { *trans = Some(nz[0]); let c = self.ct(fs[nz[0]]); return self.cts[c as usize].clone() }
        let v: Vec<Ct> = fs.iter().map(|f| self.ct(*f)).collect();
        C::St(v.into())
    }
    pub fn ct(&mut self, t: TyId) -> Ct { if let Some(i) = &self.ti[t as usize] { return i.ct } self.tinfo(t).ct }
    pub fn width(&mut self, t: TyId) -> Option<(u16, bool)> { let c = self.ct(t); if let C::Sc(w, s) = self.c(c) { Some((*w, *s)) } else { None } }
    pub fn lose(&mut self, s: impl Into<String>) {
        let w = self.chain.iter().rev().find(|f| self.ws[**f as usize]).map(|f| self.p.fns[*f as usize].path.clone()).unwrap_or_default();
        let i = self.chain.last().map(|f| self.p.fns[*f as usize].path.clone()).unwrap_or_default();
        let m = format!("{} in {i} (from {w})", s.into());
        if self.lost.len() < 50 && !self.lost.contains(&m) { self.lost.push(m) }
    }
    // ------------------------------------------------------------ values
    pub fn k(&mut self, v: u128, w: u16) -> Val { Val::T(self.t.konst(v, w)) }
    pub fn us(&mut self, v: u64) -> T { self.t.konst(v as u128, 64) }
    /// the value of type ct denoted by component i of the opaque term t
    pub fn child(&mut self, t: T, i: u32, ct: Ct) -> Val {
        match self.c(ct).clone() {
            C::Zst => Val::Undef,
            C::Sc(w, _) => { let (lo, hi) = (0, mask(w)); Val::T(self.t.sel_r(t, i, w, lo, hi)) }
            C::En(vs, _) if vs.iter().all(|v| v.iter().all(|c| matches!(self.c(*c), C::Zst))) => { let n = vs.len() as u128; let x = self.t.sel_r(t, i, 64, 0, n.max(1) - 1); Val::Enum(Rc::new((x, vec![Val::Undef; vs.len()]))) }
            _ => Val::T(self.t.sel(t, i, 0)),
        }
    }
    /// the value of type ct denoted by the opaque term t itself
    pub fn fresh(&mut self, ct: Ct, t: T) -> Val { match self.c(ct) { C::Zst | C::Sc(..) => self.child(t, 0, ct), _ => Val::T(t) } }
    /// make the components of a value explicit
    pub fn expand(&mut self, v: &Val, ct: Ct) -> Val {
        match v {
            Val::Agg(_) | Val::Enum(_) | Val::Ptr(_) | Val::Fn(_) => return v.clone(),
            Val::Ite(x) => { let (a, b) = (self.expand(&x.1, ct), self.expand(&x.2, ct)); return self.merge(x.0, &a, &b) }
            _ => {}
        }
        let opq = if let Val::T(t) = v { if self.t.w(*t) == 0 { Some(*t) } else { return v.clone() } } else { None };
        match self.c(ct).clone() {
            C::Arr(e, n) => { let mut r = Vec::with_capacity(n as usize); for i in 0..n { r.push(match opq { Some(t) => self.child(t, i as u32, e), None => Val::Undef }) } Val::Agg(Rc::new(r)) }
            C::St(fs) => { let mut r = Vec::with_capacity(fs.len()); for (i, f) in fs.iter().enumerate() { r.push(match opq { Some(t) => self.child(t, i as u32, *f), None => Val::Undef }) } Val::Agg(Rc::new(r)) }
            C::En(vs, _) => {
                let Some(t) = opq else { return Val::Undef };
                let x = self.t.sel_r(t, VAR, 64, 0, vs.len() as u128 - 1);
                let mut ps = vec![];
                for (v, fs) in vs.iter().enumerate() { let mut r = vec![]; for (i, f) in fs.iter().enumerate() { r.push(self.child(t, vfield(v as u32, i as u32), *f)) } ps.push(Val::Agg(Rc::new(r))) }
                Val::Enum(Rc::new((x, ps)))
            }
            _ => v.clone(),
        }
    }
    pub fn merge(&mut self, c: T, a: &Val, b: &Val) -> Val {
        if c == Terms::TRUE { return a.clone() } if c == Terms::FALSE { return b.clone() }
        match (a, b) {
            (Val::Undef, x) | (x, Val::Undef) => x.clone(),
            (Val::T(x), Val::T(y)) => {
                if x == y { return a.clone() }
                if self.t.w(*x) != self.t.w(*y) { self.lose("join of values of different types"); return Val::Undef }
                Val::T(self.t.ite(c, *x, *y))
            }
            (Val::Agg(x), Val::Agg(y)) => {
                if Rc::ptr_eq(x, y) { return a.clone() }
                if x.len() != y.len() { self.lose("join of aggregates of different lengths"); return Val::Undef }
                let mut r = Vec::with_capacity(x.len());
                for i in 0..x.len() { r.push(self.merge(c, &x[i], &y[i])) }
                Val::Agg(Rc::new(r))
            }
            (Val::Enum(x), Val::Enum(y)) => {
                if Rc::ptr_eq(x, y) { return a.clone() }
                let ix = self.t.ite(c, x.0, y.0);
                let mut r = vec![];
                for i in 0..x.1.len().max(y.1.len()) {
                    // a payload matters only where its variant is active
                    let (xa, ya) = (self.t.c(x.0).map(|v| v == i as u128), self.t.c(y.0).map(|v| v == i as u128));
                    let (p, q) = (x.1.get(i).cloned().unwrap_or(Val::Undef), y.1.get(i).cloned().unwrap_or(Val::Undef));
                    r.push(match (xa, ya) { (Some(false), _) => q, (_, Some(false)) => p, _ => self.merge(c, &p, &q) });
                }
                Val::Enum(Rc::new((ix, r)))
            }
            (Val::Ptr(x), Val::Ptr(y)) => {
                if x == y { return a.clone() }
                if x.obj == y.obj && x.steps.len() == y.steps.len() {
                    let mut st = vec![];
                    for (p, q) in x.steps.iter().zip(y.steps.iter()) {
                        st.push(match (p, q) { (p, q) if p == q => *p, (Step::I(i), Step::I(j)) => Step::I(self.t.ite(c, *i, *j)), (Step::Sub(i, l), Step::Sub(j, m)) => { let (s, l) = (self.t.ite(c, *i, *j), self.t.ite(c, *l, *m)); Step::Sub(s, l) } _ => return Val::Ite(Rc::new((c, a.clone(), b.clone()))) })
                    }
                    return Val::Ptr(Rc::new(P { obj: x.obj, steps: st }))
                }
                Val::Ite(Rc::new((c, a.clone(), b.clone())))
            }
            (Val::Fn(x), Val::Fn(y)) if x == y => a.clone(),
            _ => Val::Ite(Rc::new((c, a.clone(), b.clone()))),
        }
    }
    fn merge_agg_opq(&mut self, c: T, a: &Val, b: &Val, ct: Ct) -> Val {
        match (a, b) {
            (Val::T(x), Val::Agg(_) | Val::Enum(_)) if self.t.w(*x) == 0 => { let a = self.expand(a, ct); self.merge_ct(c, &a, b, ct) }
            (Val::Agg(_) | Val::Enum(_), Val::T(x)) if self.t.w(*x) == 0 => { let b = self.expand(b, ct); self.merge_ct(c, a, &b, ct) }
            _ => self.merge(c, a, b),
        }
    }
    /// join that knows the type, so that opaque and explicit aggregates can meet
    pub fn merge_ct(&mut self, c: T, a: &Val, b: &Val, ct: Ct) -> Val {
        if let (Val::Agg(x), Val::Agg(y)) = (a, b) {
            if Rc::ptr_eq(x, y) { return a.clone() }
            if x.len() == y.len() {
                match self.c(ct).clone() {
                    C::Arr(e, _) => { let mut r = Vec::with_capacity(x.len()); for i in 0..x.len() { r.push(self.merge_ct(c, &x[i], &y[i], e)) } return Val::Agg(Rc::new(r)) }
                    C::St(fs) if fs.len() == x.len() => { let mut r = Vec::with_capacity(x.len()); for i in 0..x.len() { r.push(self.merge_ct(c, &x[i], &y[i], fs[i])) } return Val::Agg(Rc::new(r)) }
                    _ => {}
                }
            }
        }
        if let (Val::Enum(x), Val::Enum(y), C::En(vs, _)) = (a, b, self.c(ct).clone()) {
            if !Rc::ptr_eq(x, y) {
                let ix = self.t.ite(c, x.0, y.0);
                let mut r = vec![];
                for i in 0..vs.len() {
                    let (xa, ya) = (self.t.c(x.0).map(|v| v == i as u128), self.t.c(y.0).map(|v| v == i as u128));
                    let (p, q) = (x.1.get(i).cloned().unwrap_or(Val::Undef), y.1.get(i).cloned().unwrap_or(Val::Undef));
                    r.push(match (xa, ya) { (Some(false), _) => q, (_, Some(false)) => p, _ => match (&p, &q) {
                        (Val::Agg(u), Val::Agg(w)) if u.len() == w.len() && u.len() == vs[i].len() => { let mut z = vec![]; for k in 0..u.len() { z.push(self.merge_ct(c, &u[k], &w[k], vs[i][k])) } Val::Agg(Rc::new(z)) }
                        _ => self.merge(c, &p, &q),
                    } });
                }
                return Val::Enum(Rc::new((ix, r)))
            }
        }
        self.merge_agg_opq(c, a, b, ct)
    }
    // ------------------------------------------------------------ memory
    fn obj_ct(&self, o: Obj) -> Ct { match o { Obj::S(i) => self.stack_ct[i as usize], Obj::H(i) => self.heap_ct[i as usize], Obj::C(i) => self.consts[i as usize].1, Obj::Z => u32::MAX } }
    fn obj_val(&mut self, st: &State, o: Obj) -> Val {
        match o {
            Obj::S(i) => st.stack.get(i as usize).cloned().unwrap_or(Val::Undef),
            Obj::H(i) => match st.heap.get(i as usize) { Some(Val::Undef) | None => match self.ext_of.get(&i).copied() { Some(t) => { let a = self.t.app("*", &[t]); let ct = self.heap_ct[i as usize]; self.fresh(ct, a) } None => Val::Undef }, Some(v) => v.clone() },
            Obj::C(i) => self.consts[i as usize].0.clone(),
            Obj::Z => Val::Undef,
        }
    }
    pub fn alloc(&mut self, st: &mut State, v: Val, ct: Ct) -> Obj {
        let i = self.heap_ct.len(); self.heap_ct.push(ct);
        while st.heap.len() <= i { st.heap.push(Val::Undef) }
        st.heap[i] = v;
        Obj::H(i as u32)
    }
    pub fn new_ptr(&mut self, st: &mut State, v: Val, ct: Ct) -> Val { let o = self.alloc(st, v, ct); Val::Ptr(Rc::new(P { obj: o, steps: vec![] })) }
    /// an owned or borrowed sequence of known length
    pub fn new_slice(&mut self, st: &mut State, v: Vec<Val>, elem: Ct) -> Val {
        let n = v.len() as u64; let ct = self.mk(C::Arr(elem, n));
        let o = self.alloc(st, Val::Agg(Rc::new(v)), ct);
        let (z, l) = (self.us(0), self.us(n));
        Val::Ptr(Rc::new(P { obj: o, steps: vec![Step::Sub(z, l)] }))
    }
    fn add(&mut self, a: T, b: T) -> T { self.t.bin(Op::Add, a, b) }
    pub fn push(&mut self, steps: &mut Vec<Step>, s: Step) {
        match (steps.last().copied(), s) {
            (Some(Step::Sub(a, _)), Step::I(i)) => { let k = self.add(a, i); *steps.last_mut().unwrap() = Step::I(k); }
            (Some(Step::Sub(a, _)), Step::Sub(b, l)) => { let k = self.add(a, b); *steps.last_mut().unwrap() = Step::Sub(k, l); }
            _ => steps.push(s),
        }
        let n = steps.len();
        if n >= 2 && steps[n - 2] == Step::Wrap { if let Step::I(i) = steps[n - 1] { if self.t.c(i) == Some(0) { steps.truncate(n - 2) } } }
    }
    pub fn ct_at(&mut self, p: &P) -> Ct {
        if p.obj == Obj::Z { return self.mk(C::Zst) }
        let mut ct = self.obj_ct(p.obj);
        for s in &p.steps { ct = self.ct_step(ct, s) }
        ct
    }
    fn ct_step(&mut self, ct: Ct, s: &Step) -> Ct {
        match (self.c(ct).clone(), s) {
            (C::St(f), Step::F(i)) => f[*i as usize],
            (C::En(v, _), Step::V(a, i)) => v[*a as usize][*i as usize],
            (C::Arr(e, _) | C::Slice(e), Step::I(_)) => e,
            (C::Arr(e, _) | C::Slice(e), Step::Sub(_, l)) => match self.t.c(*l) { Some(n) => self.mk(C::Arr(e, n as u64)), None => self.mk(C::Slice(e)) },
            (_, Step::Wrap) => self.mk(C::Arr(ct, 1)),
            _ => { self.lose(format!("projection {s:?} of {:?}", self.c(ct))); self.mk(C::Opq("?".into())) }
        }
    }
    fn note_index(&mut self, i: T, what: &'static str) {
        let tn = self.t.taint(i);
        self.steered += 1;
        if tn != 0 { self.branch(i, what, tn) }
    }
    fn branch(&mut self, c: T, what: &'static str, taint: u64) {
        let func = *self.chain.last().unwrap_or(&0);
        let ws = *self.chain.iter().rev().find(|f| self.ws[**f as usize]).unwrap_or(&func);
        if !self.branches.iter().any(|b| b.func == func && b.ws == ws && b.what == what && b.cond == c) { let span = self.cur_span; self.branches.push(Branch { func, ws, span, cond: c, what, taint }) }
    }
    fn select(&mut self, v: &[Val], e: Ct, i: T) -> Val {
        self.note_index(i, "index");
        let (lo, hi) = self.t.range(i);
        let n = v.len() as u128;
        if n == 0 || lo >= n { self.lose("index out of range"); return Val::Undef }
        let hi = hi.min(n - 1);
        let first = v[lo as usize].clone();
        if let (Val::T(x), true) = (&first, v[lo as usize..=hi as usize].iter().all(|y| matches!((y, &first), (Val::T(a), Val::T(b)) if a == b))) { return Val::T(*x) }
        if hi - lo < 16 {
            let mut r = v[hi as usize].clone();
            for k in (lo..hi).rev() { let kt = self.t.konst(k, 64); let c = self.t.eq(i, kt); r = self.merge_ct(c, &v[k as usize].clone(), &r, e); }
            return r
        }
        let mut args = vec![i]; let (mut l, mut h) = (u128::MAX, 0); let mut w = 0; let mut ok = true;
        for x in &v[lo as usize..=hi as usize] { match x { Val::T(x) => { args.push(*x); let r = self.t.range(*x); l = l.min(r.0); h = h.max(r.1); w = self.t.w(*x) } _ => ok = false } }
        if !ok { self.lose("data-dependent index into aggregates"); return Val::Undef }
        let a = self.t.app(&format!("select{lo}"), &args);
        if w == 0 { Val::T(self.t.sel(a, 0, 0)) } else { Val::T(self.t.sel_r(a, 0, w, l, h)) }
    }
    fn step_val(&mut self, v: &Val, ct: Ct, s: &Step) -> Val {
        match v {
            Val::Undef => return Val::Undef,
            Val::Ite(x) => { let (a, b) = (self.step_val(&x.1, ct, s), self.step_val(&x.2, ct, s)); let nct = self.ct_step(ct, s); return self.merge_ct(x.0, &a, &b, nct) }
            Val::T(_) => {
                // avoid expanding the whole value for one component
                if let (Val::T(t), Step::I(i), C::Arr(e, n)) = (v, s, self.c(ct).clone()) { if let Some(k) = self.t.c(*i) { if k < n as u128 { return self.child(*t, k as u32, e) } } }
                let x = self.expand(v, ct);
                if matches!(x, Val::T(_)) { if matches!(s, Step::Wrap) { return Val::Agg(Rc::new(vec![x])) } self.lose(format!("component {s:?} of an opaque value {:?}", self.c(ct))); return Val::Undef }
                return self.step_val(&x, ct, s)
            }
            _ => {}
        }
        match (s, v) {
            (Step::F(i), Val::Agg(x)) => x[*i as usize].clone(),
            (Step::V(a, i), Val::Enum(x)) => match &x.1[*a as usize] { Val::Agg(y) => y[*i as usize].clone(), _ => Val::Undef },
            (Step::I(i), Val::Agg(x)) => match self.t.c(*i) {
                Some(k) if (k as usize) < x.len() => x[k as usize].clone(),
                Some(_) => { self.lose("index out of range"); Val::Undef }
                None => { let e = self.ct_step(ct, s); let x = x.clone(); self.select(&x, e, *i) }
            },
            (Step::Sub(a, l), Val::Agg(x)) => {
                let Some(n) = self.t.c(*l) else { self.lose("copy of a slice of unknown length"); return Val::Undef };
                match self.t.c(*a) {
                    Some(0) if n as usize == x.len() => v.clone(),
                    Some(k) if (k + n) as usize <= x.len() => Val::Agg(Rc::new(x[k as usize..(k + n) as usize].to_vec())),
                    Some(_) => { self.lose("slice out of range"); Val::Undef }
                    None => { let e = match self.c(ct) { C::Arr(e, _) | C::Slice(e) => *e, _ => 0 }; let mut r = vec![]; for k in 0..n as u64 { let kt = self.us(k); let i = self.add(*a, kt); let x = x.clone(); r.push(self.select(&x, e, i)) } Val::Agg(Rc::new(r)) }
                }
            }
            (Step::Wrap, _) => Val::Agg(Rc::new(vec![v.clone()])),
            _ => { self.lose(format!("projection {s:?} does not fit the value")); Val::Undef }
        }
    }
    pub fn read_p(&mut self, st: &State, p: &P) -> Val {
        if p.obj == Obj::Z { return Val::Undef }
        let mut v = self.obj_val(st, p.obj);
        let mut ct = self.obj_ct(p.obj);
        for (k, s) in p.steps.iter().enumerate() { v = self.step_val(&v, ct, s); if k + 1 < p.steps.len() { ct = self.ct_step(ct, s) } }
        v
    }
    pub fn write_p(&mut self, st: &mut State, p: &P, v: Val, cond: T) {
        let ct = match p.obj { Obj::Z => return, Obj::C(_) => { self.lose("write to a constant"); return } o => self.obj_ct(o) };
        if p.steps.is_empty() && cond == Terms::TRUE {
            match p.obj { Obj::S(i) => { if (i as usize) < st.stack.len() { st.stack[i as usize] = v } else { self.lose("write to a dead local") } } Obj::H(i) => { while st.heap.len() <= i as usize { st.heap.push(Val::Undef) } st.heap[i as usize] = v } _ => {} }
            return
        }
        if let Obj::H(i) = p.obj { if self.ext_of.contains_key(&i) { let x = self.obj_val(st, p.obj); while st.heap.len() <= i as usize { st.heap.push(Val::Undef) } st.heap[i as usize] = x } }
        let slot = match p.obj { Obj::S(i) => st.stack.get_mut(i as usize), Obj::H(i) => st.heap.get_mut(i as usize), _ => None };
        let Some(slot) = slot else { self.lose("write to a missing object"); return };
        let mut x = std::mem::replace(slot, Val::Undef);
        self.write_in(&mut x, ct, &p.steps, v, cond);
        match p.obj { Obj::S(i) => st.stack[i as usize] = x, Obj::H(i) => st.heap[i as usize] = x, _ => {} }
    }
    fn write_in(&mut self, slot: &mut Val, ct: Ct, steps: &[Step], v: Val, cond: T) {
        let Some(s) = steps.first() else {
            let n = if cond == Terms::TRUE { v } else { self.merge_ct(cond, &v, slot, ct) };
            *slot = n; return
        };
        if let Val::Undef | Val::T(_) | Val::Ite(_) = slot {
            let x = if let (Val::Undef, C::En(vs, _)) = (&*slot, self.c(ct).clone()) { let k = self.us(0); Val::Enum(Rc::new((k, vs.iter().map(|f| Val::Agg(Rc::new(vec![Val::Undef; f.len()]))).collect()))) } else if *s == Step::Wrap { slot.clone() } else { self.expand(slot, ct) };
            *slot = x;
        }
        if *s == Step::Wrap { match (&v, steps.len()) { (Val::Agg(x), 2) if x.len() == 1 => { let y = x[0].clone(); self.write_in(slot, ct, &[], y, cond) } _ => self.lose("write through a single-element view") } return }
        match (s, &mut *slot) {
            (Step::F(i), Val::Agg(x)) => { let c2 = self.ct_step(ct, s); let x = Rc::make_mut(x); let i = *i as usize; if i < x.len() { self.write_in(&mut x[i], c2, &steps[1..], v, cond) } }
            (Step::V(a, i), Val::Enum(x)) => {
                let c2 = self.ct_step(ct, s); let n = if let C::En(vs, _) = self.c(ct) { vs[*a as usize].len() } else { 0 };
                let x = Rc::make_mut(x); let q = &mut x.1[*a as usize];
                if let Val::Undef = q { *q = Val::Agg(Rc::new(vec![Val::Undef; n])) }
                if let Val::Agg(y) = q { let y = Rc::make_mut(y); self.write_in(&mut y[*i as usize], c2, &steps[1..], v, cond) }
            }
            (Step::I(i), Val::Agg(x)) => {
                let c2 = self.ct_step(ct, s); let i = *i;
                match self.t.c(i) {
                    Some(k) => { if (k as usize) < x.len() { let x = Rc::make_mut(x); self.write_in(&mut x[k as usize], c2, &steps[1..], v, cond) } else { self.lose("write out of range") } }
                    None => {
                        self.note_index(i, "store index");
                        let (lo, hi) = self.t.range(i);
                        let x = Rc::make_mut(x);
                        for k in lo..=hi.min(x.len() as u128).min(x.len().saturating_sub(1) as u128) { if (k as usize) < x.len() { let kt = self.t.konst(k, 64); let e = self.t.eq(i, kt); let c = self.t.and(&[cond, e]); if c != Terms::FALSE { self.write_in(&mut x[k as usize], c2, &steps[1..], v.clone(), c) } } }
                    }
                }
            }
            (Step::Sub(a, l), Val::Agg(x)) => {
                let e = match self.c(ct) { C::Arr(e, _) | C::Slice(e) => *e, _ => 0 };
                let (a, l) = (*a, *l);
                let (Some(a), Some(n)) = (self.t.c(a), self.t.c(l)) else { self.lose("store to a slice at an unknown place"); return };
                let nct = self.mk(C::Arr(e, n as u64));
                let vv = self.expand(&v, nct);
                let x = Rc::make_mut(x);
                match vv {
                    Val::Agg(y) if (a + n) as usize <= x.len() && y.len() == n as usize => for k in 0..n as usize { self.write_in(&mut x[a as usize + k], e, &[], y[k].clone(), cond) },
                    Val::Undef => for k in 0..n as usize { if a as usize + k < x.len() { x[a as usize + k] = Val::Undef } },
                    _ => self.lose("store of a slice that does not fit"),
                }
            }
            _ => self.lose(format!("store through {s:?} does not fit the value")),
        }
    }
    /// the locations a pointer value may denote
    pub fn locs(&mut self, v: &Val, pointee: TyId) -> Vec<(T, P)> {
        match v {
            Val::Ptr(p) => vec![(Terms::TRUE, (**p).clone())],
            Val::Ite(x) => {
                let (c, a, b) = (x.0, x.1.clone(), x.2.clone());
                let mut r = vec![]; let n = self.t.not(c);
                for (d, p) in self.locs(&a, pointee) { r.push((self.t.and(&[c, d]), p)) }
                for (d, p) in self.locs(&b, pointee) { r.push((self.t.and(&[n, d]), p)) }
                r
            }
            Val::T(t) => {
                let ct = self.ct(pointee);
                if matches!(self.c(ct), C::Zst) { return vec![(Terms::TRUE, P { obj: Obj::Z, steps: vec![] })] }
                if let C::Slice(_) = self.c(ct) { self.lose("slice of unknown origin") }
                let id = match self.ext.get(t) { Some(i) => *i, None => { let i = self.heap_ct.len() as u32; self.heap_ct.push(ct); self.ext.insert(*t, i); self.ext_of.insert(i, *t); i } };
                vec![(Terms::TRUE, P { obj: Obj::H(id), steps: vec![] })]
            }
            _ => {
                let ct = self.ct(pointee);
                if matches!(self.c(ct), C::Zst) { return vec![(Terms::TRUE, P { obj: Obj::Z, steps: vec![] })] }
                self.lose("dereference of an undefined pointer"); vec![]
            }
        }
    }
    pub fn pointee(&self, t: TyId) -> Option<TyId> {
        match &self.p.tys[t as usize].kind {
            TyKind::Ref(x, _) | TyKind::Ptr(x, _) => Some(*x),
            TyKind::Adt { is_box: true, args, .. } => args.first().copied(),
            TyKind::Adt { krate, path, args, .. } if krate == "core" && (path.ends_with("NonNull") || path.ends_with("Unique")) => args.first().copied(),
            _ => None,
        }
    }
    fn place(&mut self, fr: Frame, st: &State, pl: &Place) -> Vec<(T, P)> {
        let f = &self.p.fns[fr.f as usize];
        let b = f.body.as_ref().unwrap();
        let mut cur = vec![(Terms::TRUE, P { obj: Obj::S((fr.base + pl.local) as u32), steps: vec![] })];
        let mut ty = b.locals[pl.local];
        let mut var: Option<usize> = None;
        for e in &pl.proj {
            match e {
                Proj::Deref => {
                    let Some(to) = self.pointee(ty) else { self.lose(format!("dereference of {}", self.p.tys[ty as usize].name)); return vec![] };
                    let mut n = vec![];
                    for (c, p) in cur { let v = self.read_p(st, &p); for (d, q) in self.locs(&v, to) { let cd = self.t.and(&[c, d]); n.push((cd, q)) } }
                    cur = n; ty = to;
                }
                Proj::Field(i, ft) => {
                    if let Some(v) = var.take() { for (_, p) in cur.iter_mut() { if p.obj != Obj::Z { p.steps.push(Step::V(v as u32, *i as u32)) } } }
                    else {
                        let ti = self.tinfo(ty);
                        let zst = { let c = self.ct(*ft); matches!(self.c(c), C::Zst) };
                        if zst { for (_, p) in cur.iter_mut() { *p = P { obj: Obj::Z, steps: vec![] } } }
                        else if ti.trans == Some(*i) {}
                        else if let C::St(_) = self.c(ti.ct) { for (_, p) in cur.iter_mut() { p.steps.push(Step::F(*i as u32)) } }
                        else { self.lose(format!("field {i} of {}", self.p.tys[ty as usize].name)); return vec![] }
                    }
                    ty = *ft;
                    let c = self.ct(ty);
                    if matches!(self.c(c), C::Zst) { for (_, p) in cur.iter_mut() { *p = P { obj: Obj::Z, steps: vec![] } } }
                }
                Proj::Downcast(v) => { if matches!(self.p.tys[ty as usize].kind, TyKind::Adt { kind: AdtKind::Enum, .. }) { var = Some(*v) } }
                Proj::Index(l) => {
                    let i = self.local_t(fr, st, *l);
                    ty = self.elem(ty);
                    for (_, p) in cur.iter_mut() { if p.obj != Obj::Z { let mut s = std::mem::take(&mut p.steps); self.push(&mut s, Step::I(i)); p.steps = s } }
                }
                Proj::ConstIndex { offset, from_end } => {
                    for (_, p) in cur.iter_mut() { if p.obj != Obj::Z {
                        let i = if *from_end { let l = self.len_of(p); let o = self.us(*offset); self.t.bin(Op::Sub, l, o) } else { self.us(*offset) };
                        let mut s = std::mem::take(&mut p.steps); self.push(&mut s, Step::I(i)); p.steps = s
                    } }
                    ty = self.elem(ty);
                }
                Proj::Subslice { from, to, from_end } => {
                    for (_, p) in cur.iter_mut() { if p.obj != Obj::Z {
                        let l = self.len_of(p); let a = self.us(*from); let t = self.us(*to);
                        let end = if *from_end { self.t.bin(Op::Sub, l, t) } else { t };
                        let n = self.t.bin(Op::Sub, end, a);
                        let mut s = std::mem::take(&mut p.steps); self.push(&mut s, Step::Sub(a, n)); p.steps = s
                    } }
                    if let TyKind::Array(..) = self.p.tys[ty as usize].kind { ty = pl.ty }
                }
                Proj::Cast(t) => ty = *t,
            }
        }
        cur
    }
    fn elem(&self, t: TyId) -> TyId { match &self.p.tys[t as usize].kind { TyKind::Array(e, _) | TyKind::Slice(e) => *e, TyKind::Adt { args, .. } => args.first().copied().unwrap_or(0), _ => 0 } }
    fn local_t(&mut self, fr: Frame, st: &State, l: usize) -> T { match &st.stack[fr.base + l] { Val::T(t) => *t, _ => { self.lose("undefined index"); self.us(0) } } }
    /// length of the array or slice at a location
    pub fn len_of(&mut self, p: &P) -> T {
        if let Some(Step::Sub(_, l)) = p.steps.last() { return *l }
        if p.obj == Obj::Z { return self.us(0) }
        let ct = self.ct_at(p);
        match self.c(ct) { C::Arr(_, n) => { let n = *n; self.us(n) } _ => { self.lose("length of an unknown slice"); self.us(0) } }
    }
    pub fn read_place(&mut self, fr: Frame0, st: &State, pl: &Place) -> Val { self.rd(Frame { f: fr.0, base: fr.1 }, st, pl) }
    fn rd(&mut self, fr: Frame, st: &State, pl: &Place) -> Val {
        let r = if pl.proj.is_empty() { st.stack[fr.base + pl.local].clone() } else {
            let ls = self.place(fr, st, pl);
            let mut r = Val::Undef; let ct = self.ct(pl.ty);
            for (k, (c, p)) in ls.iter().rev().enumerate() { let v = self.read_p(st, p); r = if k == 0 { v } else { self.merge_ct(*c, &v, &r, ct) } }
            r
        };
        if let Val::T(t) = &r { let ct = self.ct(pl.ty); let w = self.t.w(*t); if let C::Sc(x, _) = self.c(ct) { if *x != w { let x = *x; if w == 0 { return self.fresh(ct, *t) } self.lose(format!("value of width {w} read as width {x}")) } } }
        r
    }
    fn wr(&mut self, fr: Frame, st: &mut State, pl: &Place, v: Val) {
        if pl.proj.is_empty() { st.stack[fr.base + pl.local] = v; return }
        let ls = self.place(fr, st, pl);
        for (c, p) in ls { self.write_p(st, &p, v.clone(), c) }
    }
    fn op_ty(&self, o: &Operand) -> TyId { match o { Operand::Copy(p) | Operand::Move(p) => p.ty, Operand::Const(_, t) => *t, Operand::RuntimeChecks => u32::MAX } }
    fn operand(&mut self, fr: Frame, st: &mut State, o: &Operand) -> Val {
        match o {
            Operand::Copy(p) => self.rd(fr, st, p),
            Operand::Move(p) => if p.proj.is_empty() && !self.cfgs[&fr.f].addr[p.local] { self.rd(fr, st, p); std::mem::replace(&mut st.stack[fr.base + p.local], Val::Undef) } else { self.rd(fr, st, p) },
            Operand::Const(c, t) => self.konst(c, *t),
            Operand::RuntimeChecks => Val::T(Terms::FALSE),
        }
    }
    fn op_t(&mut self, fr: Frame, st: &mut State, o: &Operand) -> T { let v = self.operand(fr, st, o); self.as_t(&v) }
    pub fn as_t(&mut self, v: &Val) -> T {
        match v {
            Val::T(t) => *t,
            Val::Ite(x) => { let (a, b) = (self.as_t(&x.1), self.as_t(&x.2)); if self.t.w(a) == self.t.w(b) { self.t.ite(x.0, a, b) } else { a } }
            v => { let s = format!("{v:?}").chars().take(80).collect::<String>(); self.lose(format!("scalar expected, found {s}")); Terms::FALSE }
        }
    }
    pub fn konst(&mut self, c: &Const, t: TyId) -> Val {
        if let Some(v) = crate::curve::constant(self, c, t) { return v }
        let ti = self.tinfo(t);
        let cc = self.c(ti.ct).clone();
        if let C::Zst = cc { return Val::Undef }
        match c {
            Const::Int(v) => match cc { C::Sc(w, _) => self.k(*v, w), C::Ptr => { let a = self.t.konst(*v, 64); let x = self.t.app("addr", &[a]); Val::T(x) }
                C::Arr(e, n) => { if let C::Sc(w, _) = *self.c(e) { let r = (0..n).map(|i| self.k(*v >> (w as u64 * i).min(127), w)).collect(); Val::Agg(Rc::new(r)) } else { self.lose("constant"); Val::Undef } }
                C::En(vs, _) if vs.iter().all(|v| v.is_empty()) => { let k = self.us(*v as u64); Val::Enum(Rc::new((k, vec![Val::Undef; vs.len()]))) }
                _ => { self.lose("integer constant of an aggregate type"); Val::Undef } },
            Const::Bytes(b) => { let r = b.iter().map(|x| self.k(*x as u128, 8)).collect(); Val::Agg(Rc::new(r)) }
            Const::Str(s) => { let r = s.bytes().map(|x| self.k(x as u128, 8)).collect(); Val::Agg(Rc::new(r)) }
            Const::Arr(v) => { let e = self.elem(t); let r = v.iter().map(|x| self.konst(x, e)).collect(); Val::Agg(Rc::new(r)) }
            Const::Agg(vi, fs) => {
                let tys: Vec<TyId> = match &self.p.tys[t as usize].kind { TyKind::Tuple(v) => v.clone(), TyKind::Adt { variants, .. } => variants.get(*vi).map(|v| v.fields.iter().map(|f| f.1).collect()).unwrap_or_default(), TyKind::Closure { upvars, .. } => upvars.clone(), _ => vec![] };
                if let C::En(vs, _) = &cc {
                    let mut ps: Vec<Val> = vs.iter().map(|f| Val::Agg(Rc::new(vec![Val::Undef; f.len()]))).collect();
                    let r: Vec<Val> = fs.iter().zip(tys.iter()).map(|(f, t)| self.konst(f, *t)).collect();
                    ps[*vi] = Val::Agg(Rc::new(r));
                    let k = self.us(*vi as u64);
                    return Val::Enum(Rc::new((k, ps)))
                }
                if matches!(cc, C::Arr(..)) && ti.trans.is_none() { self.lose("constant array structure"); return Val::Undef }
                if let Some(i) = ti.trans { return match (fs.get(i), tys.get(i)) { (Some(f), Some(t)) => self.konst(f, *t), _ => Val::Undef } }
                let r: Vec<Val> = fs.iter().zip(tys.iter()).map(|(f, t)| self.konst(f, *t)).collect();
                Val::Agg(Rc::new(r))
            }
            Const::Ref(b, x) => {
                let key = &**b as *const Const as usize;
                if let Some(v) = self.constix.get(&key) { return v.clone() }
                let v = match self.pointee(t).map(|p| self.p.tys[p as usize].kind.clone()) {
                    Some(TyKind::Slice(_) | TyKind::Str) | None if matches!(&self.p.tys[*x as usize].kind, TyKind::Slice(_) | TyKind::Str) => {
                        let e = if let TyKind::Slice(e) = &self.p.tys[*x as usize].kind { self.ct(*e) } else { self.mk(C::Sc(8, false)) };
                        let et = if let TyKind::Slice(e) = &self.p.tys[*x as usize].kind { *e } else { 0 };
                        let items: Vec<Val> = match &**b { Const::Bytes(b) => b.iter().map(|x| self.k(*x as u128, 8)).collect(), Const::Str(s) => s.bytes().map(|x| self.k(x as u128, 8)).collect(), Const::Arr(v) => v.iter().map(|c| self.konst(c, et)).collect(), _ => vec![] };
                        let n = items.len() as u64; let ct = self.mk(C::Arr(e, n));
                        let i = self.consts.len() as u32; self.consts.push((Val::Agg(Rc::new(items)), ct));
                        let (z, l) = (self.us(0), self.us(n));
                        Val::Ptr(Rc::new(P { obj: Obj::C(i), steps: vec![Step::Sub(z, l)] }))
                    }
                    _ => {
                        let ct = self.ct(*x); let val = self.konst(b, *x);
                        if matches!(self.c(ct), C::Zst) { Val::Ptr(Rc::new(P { obj: Obj::Z, steps: vec![] })) } else {
                        let i = self.consts.len() as u32; self.consts.push((val, ct));
                        Val::Ptr(Rc::new(P { obj: Obj::C(i), steps: vec![] })) }
                    }
                };
                self.constix.insert(key, v.clone());
                v
            }
            Const::Fn(f) => Val::Fn(*f),
            Const::Zst | Const::Undef => Val::Undef,
            Const::Static(s) => { let a = self.t.app(&format!("static:{s}"), &[]); Val::T(a) }
            Const::Opaque(s) => { let a = self.t.app(&format!("const:{s}:{}", self.p.tys[t as usize].name), &[]); let ct = ti.ct; self.fresh(ct, a) }
        }
    }
    // ------------------------------------------------------------ operations
    fn cast_ptr(&mut self, v: Val, from: Ct, to: Ct) -> Val {
        match v {
            Val::Ite(x) => { let (a, b) = (self.cast_ptr(x.1.clone(), from, to), self.cast_ptr(x.2.clone(), from, to)); self.merge(x.0, &a, &b) }
            Val::Ptr(p) if from != to && p.obj != Obj::Z => {
                let mut q = (*p).clone();
                // array or slice viewed from its first element
                let mut k = from; let mut n = 0;
                while k != to { match *self.c(k) { C::Arr(e, _) | C::Slice(e) => { k = e; n += 1 } _ => break } }
                if k == to && n > 0 { let z = self.us(0); for _ in 0..n { self.push(&mut q.steps, Step::I(z)) } return Val::Ptr(Rc::new(q)) }
                if let C::Arr(e, m) = *self.c(to) {
                    let m = self.us(m);
                    if e == from {
                        match q.steps.last().copied() { Some(Step::I(i)) => { q.steps.pop(); q.steps.push(Step::Sub(i, m)) } _ => { let z = self.us(0); q.steps.push(Step::Wrap); q.steps.push(Step::Sub(z, m)) } }
                        return Val::Ptr(Rc::new(q))
                    }
                    if let C::Arr(e2, _) | C::Slice(e2) = *self.c(from) { if e2 == e { let z = self.us(0); self.push(&mut q.steps, Step::Sub(z, m)); return Val::Ptr(Rc::new(q)) } }
                }
                // pointer to an array element reinterpreted as a pointer to a nested array
                if let C::Slice(_) = self.c(to) { return Val::Ptr(p) }
                Val::Ptr(p)
            }
            v => v,
        }
    }
    pub fn ptr_add(&mut self, v: &Val, d: T) -> Val {
        match v {
            Val::Ptr(p) => {
                if p.obj == Obj::Z || self.t.c(d) == Some(0) { return v.clone() }
                let mut q = (**p).clone();
                match q.steps.last().copied() {
                    Some(Step::I(i)) => { let k = self.add(i, d); *q.steps.last_mut().unwrap() = Step::I(k) }
                    // pointers to chunks of an array
                    Some(Step::Sub(i, l)) => { let m = self.t.bin(Op::Mul, d, l); let k = self.add(i, m); *q.steps.last_mut().unwrap() = Step::Sub(k, l) }
                    _ => { q.steps.push(Step::Wrap); q.steps.push(Step::I(d)) }
                }
                Val::Ptr(Rc::new(q))
            }
            Val::Ite(x) => { let (a, b) = (self.ptr_add(&x.1, d), self.ptr_add(&x.2, d)); self.merge(x.0, &a, &b) }
            Val::T(t) => { let a = self.t.app("ptr_add", &[*t, d]); Val::T(a) }
            v => v.clone(),
        }
    }
    fn flip(&mut self, x: T) -> T { let w = self.t.w(x); let k = self.t.konst(1u128 << (w - 1), w); self.t.bin(Op::Xor, x, k) }
    fn ptr_eq(&mut self, a: &Val, b: &Val) -> T {
        match (a, b) {
            (Val::Ptr(p), Val::Ptr(q)) => {
                if p == q { return Terms::TRUE }
                if p.obj == q.obj {
                    if p.steps.len() == q.steps.len() && p.steps[..p.steps.len() - 1] == q.steps[..q.steps.len() - 1] {
                        if let (Some(Step::I(i)), Some(Step::I(j))) = (p.steps.last(), q.steps.last()) { return self.t.eq(*i, *j) }
                        if let (Some(Step::Sub(i, _)), Some(Step::Sub(j, _))) = (p.steps.last(), q.steps.last()) { return self.t.eq(*i, *j) }
                    }
                    // one-past-the-end of a single object
                    if p.steps.len() + 2 == q.steps.len() || q.steps.len() + 2 == p.steps.len() { return Terms::FALSE }
                    self.lose("comparison of pointers into different parts"); return Terms::FALSE
                }
                Terms::FALSE
            }
            (Val::T(x), Val::T(y)) => { let w = self.t.w(*x); if w == self.t.w(*y) && w > 0 { self.t.eq(*x, *y) } else if x == y { Terms::TRUE } else { let a = self.t.app("ptr_eq", &[*x, *y]); self.t.sel(a, 0, 1) } }
            (Val::Ite(x), y) => { let (u, v) = (self.ptr_eq(&x.1, y), self.ptr_eq(&x.2, y)); self.t.ite(x.0, u, v) }
            (y, Val::Ite(x)) => { let (u, v) = (self.ptr_eq(y, &x.1), self.ptr_eq(y, &x.2)); self.t.ite(x.0, u, v) }
            // a valid object never has a small constant address
            (Val::Ptr(_), Val::T(_)) | (Val::T(_), Val::Ptr(_)) => Terms::FALSE,
            _ => { self.lose("comparison of undefined pointers"); Terms::FALSE }
        }
    }
    fn ord(&mut self, x: T) -> Val { Val::Enum(Rc::new((x, vec![Val::Undef, Val::Undef, Val::Undef]))) }
    fn binop(&mut self, b: Bin, x: Val, y: Val, ty: TyId) -> Val {
        let is_ptr = matches!(x, Val::Ptr(_)) || matches!(y, Val::Ptr(_)) || matches!((&x, &y), (Val::Ite(_), _) | (_, Val::Ite(_))) || self.width(ty).is_none();
        if is_ptr {
            if let (Bin::Eq | Bin::Ne, Val::Enum(p), Val::Enum(q)) = (b, &x, &y) { let e = self.t.eq(p.0, q.0); return Val::T(if b == Bin::Ne { self.t.not(e) } else { e }) }
            return match b {
                Bin::Eq => Val::T(self.ptr_eq(&x, &y)),
                Bin::Ne => { let e = self.ptr_eq(&x, &y); Val::T(self.t.not(e)) }
                Bin::Offset => { let d = self.as_t(&y); self.ptr_add(&x, d) }
                Bin::Lt | Bin::Le | Bin::Gt | Bin::Ge | Bin::Sub => {
                    let (i, j) = (self.ptr_index(&x), self.ptr_index(&y));
                    match (i, j) { (Some(i), Some(j)) => { let t = match b { Bin::Lt => self.t.lt(i, j), Bin::Gt => self.t.lt(j, i), Bin::Le => { let l = self.t.lt(j, i); self.t.not(l) } Bin::Ge => { let l = self.t.lt(i, j); self.t.not(l) } _ => self.t.bin(Op::Sub, i, j) }; Val::T(t) } _ => { self.lose("order of unrelated pointers"); Val::T(Terms::FALSE) } }
                }
                _ => { self.lose(format!("{b:?} on pointers")); Val::T(Terms::FALSE) }
            }
        }
        let (a, mut c) = (self.as_t(&x), self.as_t(&y));
        let (w, signed) = self.width(ty).unwrap_or((64, false));
        if self.t.w(a) != w { self.lose("operand width"); return Val::Undef }
        if w == 1 {
            return Val::T(match b {
                Bin::And | Bin::Mul => self.t.and(&[a, c]), Bin::Or => self.t.or(&[a, c]),
                Bin::Xor | Bin::Ne => { let n = self.t.not(c); self.t.ite(a, n, c) }
                Bin::Eq => { let n = self.t.not(c); self.t.ite(a, c, n) }
                Bin::Lt => { let n = self.t.not(a); self.t.and(&[n, c]) } Bin::Gt => { let n = self.t.not(c); self.t.and(&[n, a]) }
                Bin::Le => { let n = self.t.not(a); self.t.or(&[n, c]) } Bin::Ge => { let n = self.t.not(c); self.t.or(&[n, a]) }
                _ => { self.lose("boolean operation"); Terms::FALSE }
            })
        }
        if matches!(b, Bin::Shl | Bin::Shr) {
            c = if self.t.w(c) > w { self.t.trunc(c, w) } else { self.t.zext(c, w) };
            if self.t.range(c).1 >= w as u128 { let m = self.t.konst(w as u128 - 1, w); c = self.t.bin(Op::And, c, m) }
        } else if self.t.w(c) != w { self.lose("operand widths differ"); return Val::Undef }
        let op = match b {
            Bin::Add => Op::Add, Bin::Sub => Op::Sub, Bin::Mul => Op::Mul, Bin::Xor => Op::Xor, Bin::And => Op::And, Bin::Or => Op::Or, Bin::Shl => Op::Shl,
            Bin::Shr => if signed { Op::Sar } else { Op::Shr },
            Bin::Div | Bin::Rem => {
                if signed && (self.t.range(a).1 >> (w - 1) != 0 || self.t.range(c).1 >> (w - 1) != 0) { let ap = self.t.app(if b == Bin::Div { "sdiv" } else { "srem" }, &[a, c]); return Val::T(self.t.sel(ap, 0, w)) }
                if b == Bin::Div { Op::Div } else { Op::Rem }
            }
            _ => {
                if b == Bin::Eq { return Val::T(self.t.eq(a, c)) }
                if b == Bin::Ne { let e = self.t.eq(a, c); return Val::T(self.t.not(e)) }
                let (a, c) = if signed { (self.flip(a), self.flip(c)) } else { (a, c) };
                return match b {
                    Bin::Lt => Val::T(self.t.lt(a, c)), Bin::Gt => Val::T(self.t.lt(c, a)),
                    Bin::Le => { let l = self.t.lt(c, a); Val::T(self.t.not(l)) } Bin::Ge => { let l = self.t.lt(a, c); Val::T(self.t.not(l)) }
                    Bin::Cmp => { let (l, e) = (self.t.lt(a, c), self.t.eq(a, c)); let (z, o, t) = (self.us(0), self.us(1), self.us(2)); let i = self.t.ite(e, o, t); let x = self.t.ite(l, z, i); self.ord(x) }
                    _ => { self.lose(format!("operation {b:?}")); Val::Undef }
                }
            }
        };
        Val::T(self.t.bin(op, a, c))
    }
    fn ptr_index(&mut self, v: &Val) -> Option<T> { if let Val::Ptr(p) = v { match p.steps.last() { Some(Step::I(i)) => Some(*i), Some(Step::Sub(i, _)) => Some(*i), _ => Some(self.us(0)) } } else { None } }
    fn checked(&mut self, st: &State, b: Bin, x: Val, y: Val, ty: TyId) -> Val {
        let r = self.binop(b, x.clone(), y.clone(), ty);
        let (w, signed) = self.width(ty).unwrap_or((64, false));
        let (a, c) = (self.as_t(&x), self.as_t(&y));
        let m = mask(w);
        if matches!(b, Bin::Shl | Bin::Shr) { let cw = self.t.w(c); let k = self.t.konst(w as u128, cw); let l = if bits(w as u128) > cw { Terms::TRUE } else { self.t.lt(c, k) }; let o = self.t.not(l); return Val::Agg(Rc::new(vec![r, Val::T(o)])) }
        let pc: Vec<(T, bool)> = st.pc.clone();
        let rt = self.as_t(&r);
        let f = if !signed {
            match b {
                Bin::Add => { let (p, q) = (self.t.range(a), self.t.range(c)); if p.1.checked_add(q.1).map(|s| s <= m).unwrap_or(false) { Terms::FALSE } else { let (p, q) = (self.t.range_under(a, &pc, 4), self.t.range_under(c, &pc, 4)); if p.1.checked_add(q.1).map(|s| s <= m).unwrap_or(false) { Terms::FALSE } else if p.0 + q.0 > m { Terms::TRUE } else { self.t.lt(rt, a) } } }
                Bin::Sub => { let l = self.t.lt(a, c); match self.t.decide(l, &pc) { Some(v) => self.t.b(v), None => l } }
                _ => { let (p, q) = (self.t.range_under(a, &pc, 4), self.t.range_under(c, &pc, 4)); match p.1.checked_mul(q.1) { Some(s) if s <= m => Terms::FALSE, _ => { let ap = self.t.app("mul_overflows", &[a, c]); self.t.sel(ap, 0, 1) } } }
            }
        } else {
            let (p, q) = (self.t.range_under(a, &pc, 4), self.t.range_under(c, &pc, 4)); let h = 1u128 << (w - 1);
            let sg = |r: (u128, u128)| -> Option<(i128, i128)> { if r.1 < h { Some((r.0 as i128, r.1 as i128)) } else if r.0 >= h { Some((r.0 as i128 - (m as i128 + 1), r.1 as i128 - (m as i128 + 1))) } else { None } };
            let full = (-(h as i128), h as i128 - 1);
            let (p, q) = (sg(p).unwrap_or(full), sg(q).unwrap_or(full));
            let cand = match b { Bin::Add => (p.0 + q.0, p.1 + q.1), Bin::Sub => (p.0 - q.1, p.1 - q.0), _ => { let v: Vec<i128> = [p.0.saturating_mul(q.0), p.0.saturating_mul(q.1), p.1.saturating_mul(q.0), p.1.saturating_mul(q.1)].to_vec(); (*v.iter().min().unwrap(), *v.iter().max().unwrap()) } };
            if cand.0 >= full.0 && cand.1 <= full.1 { Terms::FALSE } else { let ap = self.t.app(&format!("overflows{b:?}"), &[a, c]); self.t.sel(ap, 0, 1) }
        };
        Val::Agg(Rc::new(vec![r, Val::T(f)]))
    }
    pub fn discr(&mut self, v: &Val, ct: Ct, w: u16) -> T {
        let v = self.expand(v, ct);
        let (idx, ds) = match (&v, self.c(ct)) { (Val::Enum(x), C::En(_, d)) => (x.0, d.clone()), _ => { self.lose("discriminant of an unknown value"); return self.t.konst(0, w) } };
        if ds.iter().enumerate().all(|(i, d)| *d == i as u128) { return if w >= 64 { self.t.zext(idx, w) } else { self.t.trunc(idx, w) } }
        let mut r = self.t.konst(*ds.last().unwrap_or(&0), w);
        for i in (0..ds.len().saturating_sub(1)).rev() { let k = self.us(i as u64); let e = self.t.eq(idx, k); let d = self.t.konst(ds[i], w); r = self.t.ite(e, d, r) }
        r
    }
    pub fn to_bytes(&mut self, v: &Val, ct: Ct, out: &mut Vec<T>) -> bool {
        match self.c(ct).clone() {
            C::Zst => true,
            C::Sc(w, _) => { let t = self.as_t(v); if w == 1 { let z = self.t.zext(t, 8); out.push(z) } else { for i in 0..w / 8 { let b = self.t.slice(t, i * 8, 8, 8); out.push(b) } } true }
            C::Arr(e, _) => { let x = self.expand(v, ct); if let Val::Agg(x) = x { x.iter().all(|y| self.to_bytes(y, e, out)) } else { false } }
            _ => false,
        }
    }
    pub fn from_bytes(&mut self, b: &[T], ct: Ct) -> Option<Val> {
        match self.c(ct).clone() {
            C::Sc(w, _) => if w == 8 { Some(Val::T(b[0])) } else if w > 8 && b.len() == w as usize / 8 { Some(Val::T(self.t.concat(b, w))) } else { None },
            C::Arr(e, n) => { if n == 0 { return Some(Val::Undef) } let k = b.len() / n as usize; let mut r = vec![]; for c in b.chunks(k) { r.push(self.from_bytes(c, e)?) } Some(Val::Agg(Rc::new(r))) }
            _ => None,
        }
    }
    fn transmute(&mut self, v: Val, from: TyId, to: TyId) -> Val {
        let (a, b) = (self.ct(from), self.ct(to));
        if a == b {
            if let (Some(x), Some(y)) = (self.pointee(from), self.pointee(to)) { let (x, y) = (self.ct(x), self.ct(y)); return self.cast_ptr(v, x, y) }
            return v
        }
        match (self.c(a).clone(), self.c(b).clone()) {
            (C::Ptr, C::Sc(64, _)) | (C::Sc(64, _), C::Ptr) => return v,
            (_, C::Zst) => return Val::Undef,
            // an optional non-zero integer
            (C::Sc(w, _), C::En(vs, _)) if vs.len() == 2 && vs[0].is_empty() && vs[1].len() == 1 && matches!(self.c(vs[1][0]), C::Sc(x, _) if *x == w) => {
                let t = self.as_t(&v); let z = self.t.konst(0, w); let e = self.t.eq(t, z); let (a, b) = (self.us(0), self.us(1)); let i = self.t.ite(e, a, b);
                return Val::Enum(Rc::new((i, vec![Val::Agg(Rc::new(vec![])), Val::Agg(Rc::new(vec![v]))])))
            }
            (C::Sc(..) | C::Arr(..), C::Sc(..) | C::Arr(..)) => {
                if let (C::Arr(x, n), C::Arr(y, m)) = (self.c(a).clone(), self.c(b).clone()) { if x == y && n == m { return v } }
                let mut o = vec![];
                if self.to_bytes(&v, a, &mut o) { if let Some(r) = self.from_bytes(&o, b) { return r } }
            }
            _ => {}
        }
        if let Val::Undef = v { return v }
        self.lose(format!("transmute {} -> {}", self.p.tys[from as usize].name, self.p.tys[to as usize].name).chars().take(160).collect::<String>());
        Val::Undef
    }
    fn rvalue(&mut self, fr: Frame, st: &mut State, r: &Rvalue, dty: TyId) -> Val {
        match r {
            Rvalue::Use(o) => self.operand(fr, st, o),
            Rvalue::Ref(p, _) | Rvalue::RawPtr(p) => {
                let c = self.ct(p.ty);
                if matches!(self.c(c), C::Zst) { return Val::Ptr(Rc::new(P { obj: Obj::Z, steps: vec![] })) }
                // reborrow of an opaque pointer keeps its identity
                if p.proj.len() == 1 && matches!(p.proj[0], Proj::Deref) { let v = st.stack[fr.base + p.local].clone(); if let Val::T(_) | Val::Ptr(_) = v { return v } }
                let ls = self.place(fr, st, p);
                let mut out = Val::Undef;
                for (k, (c, l)) in ls.into_iter().rev().enumerate() { let v = Val::Ptr(Rc::new(l)); out = if k == 0 { v } else { self.merge(c, &v, &out) } }
                out
            }
            Rvalue::Bin(b, x, y) => { let ty = self.op_ty(x); let (x, y) = (self.operand(fr, st, x), self.operand(fr, st, y)); self.binop(*b, x, y, ty) }
            Rvalue::Checked(b, x, y) => { let ty = self.op_ty(x); let (x, y) = (self.operand(fr, st, x), self.operand(fr, st, y)); self.checked(st, *b, x, y, ty) }
            Rvalue::Un(u, x) => {
                let ty = self.op_ty(x); let v = self.operand(fr, st, x);
                match u {
                    Un::PtrMeta => match &v { Val::Ptr(p) => { let p = p.clone(); let to = self.pointee(ty).unwrap_or(0); let c = self.ct(to); if matches!(self.c(c), C::Slice(_)) { Val::T(self.len_of(&p)) } else { Val::Undef } }
                        Val::Ite(x) => { let mut f = |s: &mut Self, v: &Val| if let Val::Ptr(p) = v { s.len_of(p) } else { s.lose("length"); s.us(0) }; let (a, b) = (f(self, &x.1), f(self, &x.2)); Val::T(self.t.ite(x.0, a, b)) }
                        Val::T(t) => { let a = self.t.app("len", &[*t]); Val::T(self.t.sel(a, 0, 64)) } _ => Val::Undef },
                    Un::Not => { let t = self.as_t(&v); let w = self.t.w(t); Val::T(if w == 1 { self.t.not(t) } else { let m = self.t.konst(mask(w), w); self.t.bin(Op::Xor, t, m) }) }
                    Un::Neg => { let t = self.as_t(&v); let w = self.t.w(t); let z = self.t.konst(0, w); Val::T(self.t.bin(Op::Sub, z, t)) }
                }
            }
            Rvalue::Cast(k, x, to) => {
                let from = self.op_ty(x); let v = self.operand(fr, st, x);
                match k {
                    CastK::IntToInt => {
                        let (w, _) = self.width(*to).unwrap_or((64, false));
                        let v = if let Val::Enum(_) = v { let c = self.ct(from); Val::T(self.discr(&v, c, w)) } else { v };
                        let s = self.width(from).map(|x| x.1).unwrap_or(false);
                        let t = self.as_t(&v); Val::T(self.t.cast(t, s, w))
                    }
                    CastK::PtrToPtr => { match (self.pointee(from), self.pointee(*to)) { (Some(a), Some(b)) => { let (a, b) = (self.ct(a), self.ct(b)); self.cast_ptr(v, a, b) } _ => v } }
                    CastK::Transmute => self.transmute(v, from, *to),
                    CastK::ReifyFn => if let TyKind::FnDef(f) = self.p.tys[from as usize].kind { Val::Fn(f) } else if let TyKind::Closure { body, .. } = self.p.tys[from as usize].kind { Val::Fn(body) } else { v },
                    CastK::Unsize => match self.pointee(from).map(|a| self.ct(a)).map(|c| self.c(c).clone()) {
                        Some(C::Arr(_, n)) => { if let Val::Ptr(p) = &v { let mut q = (**p).clone(); let (z, l) = (self.us(0), self.us(n)); if q.obj != Obj::Z { self.push(&mut q.steps, Step::Sub(z, l)) } Val::Ptr(Rc::new(q)) } else { v } }
                        _ => v,
                    },
                    CastK::Other => v,
                }
            }
            Rvalue::Discr(p) => { let v = self.rd(fr, st, p); let c = self.ct(p.ty); let w = self.width(dty).map(|x| x.0).unwrap_or(64); if matches!(self.c(c), C::Zst) { return self.k(0, w) } Val::T(self.discr(&v, c, w)) }
            Rvalue::Len(p) => { let ls = self.place(fr, st, p); match ls.first() { Some((_, l)) => { let l = l.clone(); Val::T(self.len_of(&l)) } None => self.k(0, 64) } }
            Rvalue::Repeat(o, n) => { let v = self.operand(fr, st, o); Val::Agg(Rc::new(vec![v; *n as usize])) }
            Rvalue::Agg(k, os) => {
                let vs: Vec<Val> = os.iter().map(|o| self.operand(fr, st, o)).collect();
                match k {
                    AggK::Array(_) => Val::Agg(Rc::new(vs)),
                    AggK::RawPtr(_) => {
                        let dc = self.ct(dty); let _ = dc;
                        match (&vs[0], &vs[1]) {
                            (Val::Ptr(p), Val::T(l)) => { let mut q = (**p).clone(); if q.obj != Obj::Z { match q.steps.last().copied() { Some(Step::I(i)) => { q.steps.pop(); q.steps.push(Step::Sub(i, *l)) } _ => { let z = self.us(0); q.steps.push(Step::Wrap); q.steps.push(Step::Sub(z, *l)) } } } Val::Ptr(Rc::new(q)) }
                            (Val::T(_), Val::T(l)) if self.t.c(*l) == Some(0) => { let e = self.mk(C::Sc(8, false)); let e = match self.pointee(dty).map(|x| self.ct(x)) { Some(c) => if let C::Slice(e) = *self.c(c) { e } else { e }, None => e }; self.new_slice(st, vec![], e) }
                            (v, _) => v.clone(),
                        }
                    }
                    AggK::Adt(t, v, active) => {
                        let ti = self.tinfo(*t);
                        match self.c(ti.ct).clone() {
                            C::Zst => Val::Undef,
                            C::En(variants, _) => { let mut ps: Vec<Val> = variants.iter().map(|_| Val::Undef).collect(); ps[*v] = Val::Agg(Rc::new(vs)); let k = self.us(*v as u64); Val::Enum(Rc::new((k, ps))) }
                            _ => match (ti.trans, active) { (_, Some(_)) => vs.into_iter().next().unwrap_or(Val::Undef), (Some(i), None) => vs.get(i).cloned().unwrap_or(Val::Undef), _ => Val::Agg(Rc::new(vs)) },
                        }
                    }
                    AggK::Tuple | AggK::Closure(_) => { let t = if let AggK::Closure(t) = k { *t } else { dty }; let ti = self.tinfo(t); match self.c(ti.ct) { C::Zst => Val::Undef, _ => match ti.trans { Some(i) => vs.get(i).cloned().unwrap_or(Val::Undef), None => Val::Agg(Rc::new(vs)) } } }
                }
            }
            Rvalue::ThreadLocal(s) => { let a = self.t.app(&format!("tls:{s}"), &[]); Val::T(a) }
        }
    }
    fn stmt(&mut self, fr: Frame, st: &mut State, s: &Stmt) {
        match s {
            Stmt::Assign(p, r) => { let v = self.rvalue(fr, st, r, p.ty); self.wr(fr, st, p, v) }
            Stmt::SetDiscr(p, v) => {
                let ls = self.place(fr, st, p); let ct = self.ct(p.ty);
                for (c, l) in ls { let old = self.read_p(st, &l); let old = self.expand(&old, ct); let k = self.us(*v as u64);
                    let n = match (old, self.c(ct).clone()) { (Val::Enum(x), _) => { let ix = self.t.ite(c, k, x.0); Val::Enum(Rc::new((ix, x.1.clone()))) } (_, C::En(vs, _)) => Val::Enum(Rc::new((k, vs.iter().map(|_| Val::Undef).collect()))), (o, _) => o };
                    self.write_p(st, &l, n, Terms::TRUE) }
            }
            Stmt::Live(l) | Stmt::Dead(l) => st.stack[fr.base + *l] = Val::Undef,
            Stmt::Assume(o) => { let t = self.op_t(fr, st, o); if self.t.c(t).is_none() { st.pc.push((t, true)) } }
            Stmt::CopyNonOverlapping(a, b, n) => {
                let (ta, tb) = (self.op_ty(a), self.op_ty(b)); let _ = tb;
                let (a, b, n) = (self.operand(fr, st, a), self.operand(fr, st, b), self.op_t(fr, st, n));
                let et = self.pointee(ta).unwrap_or(0);
                self.copy(st, &a, &b, n, et);
            }
        }
    }
    /// copy n elements from one element pointer to another
    pub fn copy(&mut self, st: &mut State, a: &Val, b: &Val, n: T, et: TyId) {
        let Some(k) = self.t.c(n) else { self.lose("copy of an unknown number of elements"); return };
        if k == 0 { return }
        let ct = self.ct(et);
        if matches!(self.c(ct), C::Zst) { return }
        let act = self.mk(C::Arr(ct, k as u64));
        let (pa, pb) = (self.cast_ptr(a.clone(), ct, act), self.cast_ptr(b.clone(), ct, act));
        let mut v = Val::Undef;
        for (i, (c, p)) in self.locs(&pa, et).into_iter().rev().enumerate() { let x = self.read_p(st, &p); v = if i == 0 { x } else { self.merge_ct(c, &x, &v, act) } }
        for (c, p) in self.locs(&pb, et) { self.write_p(st, &p, v.clone(), c) }
    }
    // ------------------------------------------------------------ control
    pub fn cfg(&mut self, f: FnId) -> Rc<Cfg> {
        if let Some(c) = self.cfgs.get(&f) { return c.clone() }
        let c = Rc::new(Cfg::new(self.p.fns[f as usize].body.as_ref().unwrap()));
        self.cfgs.insert(f, c.clone()); c
    }
    pub fn alarm(&mut self, st: &State, kind: String, cond: T, text: String) {
        let func = *self.chain.last().unwrap_or(&0);
        let ws = *self.chain.iter().rev().find(|f| self.ws[**f as usize]).unwrap_or(&func);
        let span = self.ws_span;
        if self.alarms.iter().any(|a| a.kind == kind && a.func == func && a.ws == ws && a.span == span) { return }
        self.alarms.push(Alarm { kind, func, ws, span, pc: st.pc.clone(), cond, text })
    }
    fn merge_state(&mut self, fr: Frame, at: usize, c: T, a: State, b: State) -> State {
        if c == Terms::TRUE { return a } if c == Terms::FALSE { return b }
        let cfg = self.cfg(fr.f);
        let n = a.stack.len().min(b.stack.len());
        let mut stack = Vec::with_capacity(n);
        for i in 0..n {
            if i >= fr.base && at != EXIT && !cfg.is_live(at, i - fr.base) { stack.push(Val::Undef); continue }
            if i >= fr.base && at == EXIT && i != fr.base { stack.push(Val::Undef); continue }
            let ct = self.stack_ct[i];
            stack.push(self.merge_ct(c, &a.stack[i], &b.stack[i], ct));
        }
        let m = a.heap.len().max(b.heap.len());
        let mut heap = Vec::with_capacity(m);
        for i in 0..m {
            let ct = self.heap_ct[i];
            let (x, y) = (a.heap.get(i).cloned().unwrap_or(Val::Undef), b.heap.get(i).cloned().unwrap_or(Val::Undef));
            let (x, y) = if self.ext_of.contains_key(&(i as u32)) { (self.obj_val(&a, Obj::H(i as u32)), self.obj_val(&b, Obj::H(i as u32))) } else { (x, y) };
            heap.push(self.merge_ct(c, &x, &y, ct));
        }
        State { stack, heap, pc: vec![] }
    }
    /// join of several states under their (exclusive) conditions
    fn join(&mut self, fr: Frame, at: usize, outs: Vec<(T, State)>) -> Option<(T, State)> {
        let mut it = outs.into_iter().rev();
        let (mut c, mut s) = it.next()?;
        for (d, t) in it { s = self.merge_state(fr, at, d, t, s); c = self.t.or(&[c, d]) }
        Some((c, s))
    }
    pub fn call(&mut self, st: State, f: FnId, args: Vec<Val>) -> Option<(State, Val)> {
        let mut st = st;
        if self.steps > self.limit { self.lose("analysis limit reached"); return None }
        match self.model(&mut st, f, &args) { M::Ret(v) => return Some((st, v)), M::Diverge => return None, M::No => {} }
        let fun = &self.p.fns[f as usize];
        let Some(body) = &fun.body else {
            let v = self.leaf(&mut st, f, &args)?;
            return Some((st, v))
        };
        if self.chain.len() > 400 { self.lose("recursion"); return None }
        self.seen.insert(f);
        let cfg = self.cfg(f);
        let base = st.stack.len();
        let fr = Frame { f, base };
        let n = body.locals.len();
        for l in &body.locals { let c = self.ct(*l); self.stack_ct.push(c) }
        st.stack.resize(base + n, Val::Undef);
        let mut args = args;
        if args.len() != body.arg_count {
            if args.len() == 2 && fun.is_closure {
                let tup = args.pop().unwrap();
                let cnt = body.arg_count - 1;
                self.untuple(&mut args, tup, cnt, &body.locals[2..=body.arg_count]);
            }
        }
        if let Some(sp) = body.spread {
            // the last declared argument collects the remaining ones
            if args.len() > sp { let rest: Vec<Val> = args.drain(sp - 1..).collect(); let ti = self.tinfo(body.locals[sp]); args.push(match ti.trans { Some(i) => rest[i].clone(), None => Val::Agg(Rc::new(rest)) }) }
        }
        for (i, a) in args.into_iter().enumerate().take(body.arg_count) { st.stack[base + 1 + i] = a }
        self.chain.push(f);
        if self.log { eprintln!("{}> {}", " ".repeat(self.chain.len()), fun.name.chars().take(150).collect::<String>()) }
        let pcn = st.pc.len();
        let outs = self.run(fr, 0, st, &[], false);
        self.chain.pop();
        self.stack_ct.truncate(base);
        let _ = cfg;
        let mut o = outs.into_iter().filter(|o| o.to == EXIT);
        let r = o.next()?;
        let mut st = r.st;
        let v = std::mem::replace(&mut st.stack[base], Val::Undef);
        st.stack.truncate(base);
        if r.cond != Terms::TRUE && pcn <= st.pc.len() && !st.pc.iter().any(|p| p.0 == r.cond) { st.pc.push((r.cond, true)) }
        Some((st, v))
    }
    fn untuple(&mut self, args: &mut Vec<Val>, tup: Val, cnt: usize, tys: &[TyId]) {
        let nz: Vec<usize> = (0..cnt).filter(|i| { let c = self.ct(tys[*i]); !matches!(self.c(c), C::Zst) }).collect();
        if nz.len() == 1 { for i in 0..cnt { args.push(if i == nz[0] { tup.clone() } else { Val::Undef }) } return }
        if nz.is_empty() { for _ in 0..cnt { args.push(Val::Undef) } return }
        let cts: Vec<Ct> = tys.iter().take(cnt).map(|t| self.ct(*t)).collect();
        let ct = self.mk(C::St(cts.into()));
        match self.expand(&tup, ct) { Val::Agg(v) if v.len() == cnt => args.extend(v.iter().cloned()), _ => { self.lose("closure arguments"); for _ in 0..cnt { args.push(Val::Undef) } } }
    }
    fn push_fact(&mut self, st: &mut State, c: T, v: bool) { if self.t.c(c).is_none() && !st.pc.contains(&(c, v)) { st.pc.push((c, v)) } }
    fn run(&mut self, fr: Frame, start: usize, st: State, stops: &[usize], skip_first: bool) -> Vec<Out> {
        let p = self.p;
        let body = p.fns[fr.f as usize].body.as_ref().unwrap();
        let cfg = self.cfg(fr.f);
        let mut bb = start; let mut st = st; let mut acc = Terms::TRUE;
        let mut extras: Vec<Out> = vec![];
        let mut first = skip_first;
        loop {
            if !first && stops.contains(&bb) { extras.push(Out { to: bb, cond: acc, st }); return self.group(fr, extras) }
            if cfg.is_header[bb] && !first && self.dependent(fr, &st, bb, &cfg) {
                let outs = self.solve_loop(fr, bb, st, stops, &cfg);
                // exits of the loop: continue from each, then join
                let mut all = vec![];
                for o in outs { let c = self.t.and(&[acc, o.cond]); if o.to == EXIT || stops.contains(&o.to) { all.push(Out { cond: c, ..o }) } else { for q in self.run(fr, o.to, o.st, stops, false) { let cc = self.t.and(&[c, q.cond]); all.push(Out { cond: cc, ..q }) } } }
                extras.extend(all);
                return self.group(fr, extras)
            }
            first = false;
            let bl = &body.blocks[bb];
            self.steps += 1 + bl.stmts.len() as u64;
            if self.steps > self.limit { self.lose("analysis limit reached"); return self.group(fr, extras) }
            let wsf = self.ws[fr.f as usize];
            for (s, sp) in &bl.stmts { self.cur_span = *sp; if wsf { self.ws_span = *sp } self.stmt(fr, &mut st, s) }
            self.cur_span = bl.span; if wsf { self.ws_span = bl.span }
            match &bl.term {
                Term::Goto(t) => bb = *t,
                Term::Drop(_, t) => bb = *t,
                Term::Return => { extras.push(Out { to: EXIT, cond: acc, st }); return self.group(fr, extras) }
                Term::Unreachable | Term::Resume => return self.group(fr, extras),
                Term::Other(s) => { self.lose(format!("terminator {s}")); return self.group(fr, extras) }
                Term::Assert { cond, expected, kind, target, ops } => {
                    let c = self.op_t(fr, &mut st, cond);
                    let c = if *expected { c } else { self.t.not(c) };
                    match self.t.decide(c, &st.pc) {
                        Some(true) => { *self.ok_asserts.entry((fr.f, bl.span)).or_default() += 1; bb = *target }
                        d => {
                            let os: Vec<String> = ops.iter().map(|o| { let v = self.operand(fr, &mut st.clone(), o); if let Val::T(t) = v { let r = self.t.range_under(t, &st.pc, 4); if self.trace { format!("[{}..{}] {}", r.0, r.1, self.t.show_d(t, 7)) } else { format!("[{}..{}]", r.0, r.1) } } else { "?".into() } }).collect();
                            self.alarm(&st, kind.clone(), c, format!("operands in {}", os.join(", ")));
                            if d == Some(false) { return self.group(fr, extras) }
                            self.push_fact(&mut st, c, true);
                            bb = *target
                        }
                    }
                }
                Term::Call { func, args, dest, target } => {
                    let (f, mut vs) = match func {
                        Callee::Direct(f) => (Some(*f), vec![]),
                        Callee::Indirect(o) => {
                            let ty = self.op_ty(o);
                            match self.p.tys.get(ty as usize).map(|t| &t.kind) { Some(TyKind::FnDef(f)) => (Some(*f), vec![]), _ => { let v = self.operand(fr, &mut st, o); if let Val::Fn(f) = v { (Some(f), vec![]) } else { self.lose("call of an unknown function value"); (None, vec![]) } } }
                        }
                    };
                    for a in args { vs.push(self.operand(fr, &mut st, a)) }
                    let Some(f) = f else { return self.group(fr, extras) };
                    let (sp, wsp) = (self.cur_span, self.ws_span);
                    // models may look at the types at the call site
                    match self.call(st, f, vs) {
                        Some((s, v)) => {
                            st = s; self.cur_span = sp; self.ws_span = wsp;
                            let Some(t) = target else { return self.group(fr, extras) };
                            self.wr(fr, &mut st, dest, v);
                            bb = *t
                        }
                        None => return self.group(fr, extras),
                    }
                }
                Term::Switch(o, _, targets, other) => {
                    let c = self.op_t(fr, &mut st, o);
                    if let Some(v) = self.t.c(c) { bb = targets.iter().find(|t| t.0 == v).map(|t| t.1).unwrap_or(*other); continue }
                    // arms: target -> condition
                    let w = self.t.w(c);
                    let mut arms: Vec<(usize, T)> = vec![]; let mut rest = vec![];
                    for (v, t) in targets {
                        let e = if w == 1 { if *v == 0 { self.t.not(c) } else { c } } else { let k = self.t.konst(*v, w); self.t.eq(c, k) };
                        let n = self.t.not(e); rest.push(n);
                        match arms.iter_mut().find(|a| a.0 == *t) { Some(a) => { let x = a.1; a.1 = self.t.or(&[x, e]) } None => arms.push((*t, e)) }
                    }
                    let e = self.t.and(&rest);
                    match arms.iter_mut().find(|a| a.0 == *other) { Some(a) => { let x = a.1; a.1 = self.t.or(&[x, e]) } None => arms.push((*other, e)) }
                    arms.retain(|a| !cfg.unreachable[a.0]);
                    let pc = st.pc.clone();
                    let d: Vec<Option<bool>> = arms.iter().map(|a| self.t.decide(a.1, &pc)).collect();
                    if let Some(i) = d.iter().position(|x| *x == Some(true)) { bb = arms[i].0; continue }
                    let arms: Vec<(usize, T)> = arms.iter().zip(d.iter()).filter(|x| *x.1 != Some(false)).map(|x| *x.0).collect();
                    if arms.is_empty() { return self.group(fr, extras) }
                    if arms.len() == 1 { let a = arms[0]; if cfg.reach[bb] || true { self.push_fact(&mut st, a.1, true) } bb = a.0; continue }
                    let tn = self.t.taint(c);
                    self.steered += 1;
                    if tn != 0 { self.branch(c, "branch", tn) }
                    let j = cfg.ipdom[bb];
                    let mut st2 = stops.to_vec(); if j != EXIT { st2.push(j) }
                    let pcn = st.pc.len();
                    let mut at_j: Vec<(T, State)> = vec![];
                    let na = arms.len();
                    let mut hold = Some(st);
                    for (i, (t, e)) in arms.into_iter().enumerate() {
                        let mut s = if i + 1 == na { hold.take().unwrap() } else { hold.as_ref().unwrap().clone() };
                        self.push_fact(&mut s, e, true);
                        for o in self.run(fr, t, s, &st2, false) {
                            let cc = self.t.and(&[e, o.cond]);
                            if o.to == j { at_j.push((cc, o.st)) } else { let c2 = self.t.and(&[acc, cc]); extras.push(Out { to: o.to, cond: c2, st: o.st }) }
                        }
                    }
                    let only = at_j.len() == 1;
                    let Some((cj, mut sj)) = self.join(fr, j, at_j) else { return self.group(fr, extras) };
                    if only { if !sj.pc.iter().any(|p| p.0 == cj) { self.push_fact(&mut sj, cj, true) } } else {
                        sj.pc = pc[..pcn].to_vec();
                        self.push_fact(&mut sj, cj, true);
                    }
                    acc = self.t.and(&[acc, cj]);
                    st = sj;
                    if j == EXIT { extras.push(Out { to: EXIT, cond: acc, st }); return self.group(fr, extras) }
                    bb = j;
                }
            }
        }
    }
    /// one outcome per target
    fn group(&mut self, fr: Frame, outs: Vec<Out>) -> Vec<Out> {
        if outs.len() <= 1 { return outs }
        let mut r: Vec<Out> = vec![];
        let mut by: Vec<(usize, Vec<(T, State)>)> = vec![];
        for o in outs { match by.iter_mut().find(|b| b.0 == o.to) { Some(b) => b.1.push((o.cond, o.st)), None => by.push((o.to, vec![(o.cond, o.st)])) } }
        for (to, v) in by {
            if v.len() == 1 { let (c, s) = v.into_iter().next().unwrap(); r.push(Out { to, cond: c, st: s }); continue }
            // facts common to all
            let mut pc: Vec<(T, bool)> = v[0].1.pc.clone();
            for x in &v { pc.retain(|f| x.1.pc.contains(f)) }
            if let Some((c, mut s)) = self.join(fr, to, v) { s.pc = pc; r.push(Out { to, cond: c, st: s }) }
        }
        r
    }
    // ------------------------------------------------------------ loops with data-dependent exits
    fn leaf_terms(&self, v: &Val, out: &mut Vec<T>) {
        match v { Val::T(t) => out.push(*t), Val::Agg(x) => for y in x.iter() { self.leaf_terms(y, out) }, Val::Enum(x) => { out.push(x.0); for y in &x.1 { self.leaf_terms(y, out) } } Val::Ptr(p) => for s in &p.steps { match s { Step::I(i) => out.push(*i), Step::Sub(a, l) => { out.push(*a); out.push(*l) } _ => {} } }, Val::Ite(x) => { out.push(x.0); self.leaf_terms(&x.1, out); self.leaf_terms(&x.2, out) } _ => {} }
    }
    fn dependent(&mut self, fr: Frame, st: &State, h: usize, cfg: &Cfg) -> bool {
        let Some(l) = cfg.loops.get(&h) else { return false };
        for x in &l.carried {
            let v = &st.stack[fr.base + *x];
            // only integers and positions steer a loop; contents of arrays do not
            let mut ts = vec![];
            match v { Val::T(t) if self.t.w(*t) > 0 => ts.push(*t), Val::Ptr(_) => self.leaf_terms(v, &mut ts), Val::Agg(a) if a.len() <= 8 => { for y in a.iter() { match y { Val::T(t) if self.t.w(*t) > 0 => ts.push(*t), Val::Ptr(_) => self.leaf_terms(y, &mut ts), _ => {} } } } Val::Ite(_) => return true, _ => {} }
            let lt = self.p.fns[fr.f as usize].body.as_ref().unwrap().locals[*x];
            if let TyKind::Array(..) = self.p.tys[lt as usize].kind { continue }
            if matches!(&self.cts[self.ti[lt as usize].as_ref().unwrap().ct as usize], C::Arr(..)) { continue }
            if ts.iter().any(|t| self.t.c(*t).is_none()) { return true }
        }
        false
    }
    fn solve_loop(&mut self, fr: Frame, h: usize, s0: State, stops: &[usize], cfg: &Cfg) -> Vec<Out> {
        let l = &cfg.loops[&h];
        let inside = l.body.clone();
        let mut exits: Vec<usize> = vec![];
        for b in 0..inside.len() { if inside[b] { for s in &cfg.succ[b] { if !inside[*s] && !exits.contains(s) { exits.push(*s) } } } }
        let mut st2: Vec<usize> = stops.to_vec(); st2.extend(exits.iter().copied()); st2.push(h);
        let mut changed: FxHashMap<(Obj, Vec<u32>), (u16, u128, u128)> = Default::default();
        let (na, nb) = (self.alarms.len(), self.branches.len());
        let okb = self.ok_asserts.clone();
        let name = format!("loop:{}#{h}", self.p.fns[fr.f as usize].name);
        // everything the loop reads, in a fixed order: equal inputs of the same loop give equal results
        let mut ins: Vec<T> = vec![]; let mut objs: FxHashMap<Obj, u32> = Default::default();
        for i in fr.base..s0.stack.len() { if cfg.is_live(h, i - fr.base) { let o = Obj::S(i as u32); if !objs.contains_key(&o) { let k = objs.len() as u32; objs.insert(o, k); let v = s0.stack[i].clone(); self.shape(&s0, &v, &mut ins, &mut objs) } } }
        let mut thr: Vec<u128> = cfg.consts.clone();
        let more: Vec<u128> = thr.iter().flat_map(|v| [v.saturating_sub(1), v + 1, v.saturating_sub(2)]).collect(); thr.extend(more); thr.push(0); thr.sort(); thr.dedup();
        let mut narrowing = 0; let mut pass = 0u32;
        loop {
            pass += 1;
            if pass > 40 { self.lose("loop analysis does not stabilise"); return vec![] }
            // abstract header state
            let mut keys: Vec<_> = vec![];
            for (k, v) in changed.iter() { match objs.get(&k.0) { Some(i) => keys.push(((*i, k.1.clone()), k.clone(), *v)), None => { self.lose("loop changes an object it does not refer to"); return vec![] } } }
            keys.sort_by(|a, b| a.0.cmp(&b.0));
            let desc = fxhash::hash64(&keys.iter().map(|k| (k.0.clone(), k.2)).collect::<Vec<_>>());
            let keys: Vec<_> = keys.into_iter().map(|k| (k.1, k.2)).collect();
            let app = self.t.app(&format!("{name}#{desc:x}"), &ins);
            let mut a = s0.clone();
            for (n, (k, (w, lo, hi))) in keys.iter().enumerate() { let x = if *w == 0 { self.t.sel(app, n as u32, 0) } else { self.t.sel_r(app, n as u32, *w, *lo, *hi) }; self.set_leaf(&mut a, &k.0, &k.1, x) }
            self.alarms.truncate(na); self.branches.truncate(nb); self.ok_asserts = okb.clone();
            let outs = self.run(fr, h, a.clone(), &st2, true);
            let mut back = None; let mut rest = vec![];
            for o in outs { if o.to == h { back = Some(o) } else { rest.push(o) } }
            let Some(b) = back else { return rest };
            // compare
            let mut grew = false; let mut tight = false;
            let mut diffs: Vec<((Obj, Vec<u32>), T, T)> = vec![];
            let mut bad = false;
            for i in fr.base..a.stack.len() { if cfg.is_live(h, i - fr.base) { diff(&a.stack[i], &b.st.stack[i], &mut vec![], Obj::S(i as u32), &mut diffs, &mut bad) } }
            for i in 0..fr.base { diff(&a.stack[i], &b.st.stack[i], &mut vec![], Obj::S(i as u32), &mut diffs, &mut bad) }
            for i in 0..a.heap.len() { diff(&a.heap[i], &b.st.heap[i], &mut vec![], Obj::H(i as u32), &mut diffs, &mut bad) }
            if bad { self.lose("loop changes the shape of a value"); return rest }
            let mut news: FxHashMap<(Obj, Vec<u32>), (u128, u128)> = Default::default();
            for (k, x, y) in diffs {
                let w = self.t.w(y);
                let yr = if w > 0 { self.t.range_under(y, &b.st.pc, 5) } else { (0, 0) };
                match changed.get(&k).copied() {
                    None => {
                        let xr = if w > 0 { self.t.range(x) } else { (0, 0) };
                        changed.insert(k, (w, xr.0.min(yr.0), xr.1.max(yr.1))); grew = true;
                    }
                    Some((_, lo, hi)) if w > 0 => {
                        news.insert(k.clone(), yr);
                        if narrowing == 0 && (yr.0 < lo || yr.1 > hi) {
                            grew = true;
                            let (mut nl, mut nh) = (lo.min(yr.0), hi.max(yr.1));
                            if pass > 3 {
                                // widen to the constants of the function, counted in steps of the change
                                if yr.1 > hi { nh = thr.iter().copied().find(|t| *t >= nh).unwrap_or(mask(w)).min(mask(w)) }
                                if yr.0 < lo { nl = thr.iter().rev().copied().find(|t| *t <= nl).unwrap_or(0) }
                            }
                            changed.insert(k, (w, nl, nh));
                        }
                    }
                    _ => {}
                }
            }
            if grew { narrowing = 0; continue }
            if narrowing < 2 {
                narrowing += 1;
                let ks: Vec<_> = changed.keys().cloned().collect();
                for k in ks {
                    let (w, lo, hi) = changed[&k];
                    if w == 0 { continue }
                    let s = match self.leaf_at(&s0, &k.0, &k.1) { Some(t) => self.t.range(t), None => continue };
                    let y = news.get(&k).copied().unwrap_or((lo, hi));
                    let (nl, nh) = (s.0.min(y.0).max(lo), s.1.max(y.1).min(hi));
                    if (nl, nh) != (lo, hi) { changed.insert(k, (w, nl, nh)); tight = true }
                }
                if tight { continue }
            }
            let _ = b;
            return rest;
        }
    }
    /// the scalars a value is made of and leads to, in an order that depends on the shape alone
    fn shape(&mut self, st: &State, v: &Val, out: &mut Vec<T>, objs: &mut FxHashMap<Obj, u32>) {
        match v {
            Val::Undef => out.push(NONE_T),
            Val::T(t) => out.push(*t),
            Val::Fn(f) => { let k = self.t.konst(*f as u128, 64); out.push(k) }
            Val::Agg(x) => for y in x.iter() { self.shape(st, y, out, objs) },
            Val::Enum(x) => { out.push(x.0); for y in &x.1 { self.shape(st, y, out, objs) } }
            Val::Ite(x) => { out.push(x.0); self.shape(st, &x.1, out, objs); self.shape(st, &x.2, out, objs) }
            Val::Ptr(p) => {
                let n = objs.len() as u32;
                let id = *objs.entry(p.obj).or_insert(n);
                let k = self.t.konst(id as u128, 64); out.push(k);
                for s in &p.steps { match s { Step::I(i) => out.push(*i), Step::Sub(a, l) => { out.push(*a); out.push(*l) } Step::F(i) => { let k = self.t.konst(*i as u128, 32); out.push(k) } Step::V(a, b) => { let k = self.t.konst((*a as u128) << 32 | *b as u128, 64); out.push(k) } Step::Wrap => {} } }
                if id == n { let x = self.obj_val(st, p.obj); self.shape(st, &x, out, objs) }
            }
        }
    }
    fn leaf_at(&mut self, st: &State, o: &Obj, path: &[u32]) -> Option<T> {
        let v = self.obj_val(st, *o);
        let mut v = &v; let mut k = 0;
        loop {
            match v {
                Val::T(t) => return if k == path.len() { Some(*t) } else { None },
                Val::Agg(x) => { v = x.get(*path.get(k)? as usize)?; k += 1 }
                Val::Enum(x) => { let i = *path.get(k)?; k += 1; if i == 0 { return Some(x.0) } v = x.1.get(i as usize - 1)? }
                Val::Ptr(p) => { let i = *path.get(k)?; return match p.steps.get((i / 2) as usize)? { Step::I(t) => Some(*t), Step::Sub(a, l) => Some(if i % 2 == 0 { *a } else { *l }), _ => None } }
                _ => return None,
            }
        }
    }
    fn set_leaf(&mut self, st: &mut State, o: &Obj, path: &[u32], t: T) {
        fn go(v: &mut Val, path: &[u32], t: T) {
            match v {
                Val::Agg(x) => go(&mut Rc::make_mut(x)[path[0] as usize], &path[1..], t),
                Val::Enum(x) => { let x = Rc::make_mut(x); if path[0] == 0 { x.0 = t } else { go(&mut x.1[path[0] as usize - 1], &path[1..], t) } }
                Val::Ptr(p) => { let p = Rc::make_mut(p); let i = path[0]; match &mut p.steps[(i / 2) as usize] { Step::I(x) => *x = t, Step::Sub(a, l) => if i % 2 == 0 { *a = t } else { *l = t }, _ => {} } }
                v => *v = Val::T(t),
            }
        }
        match o { Obj::S(i) => go(&mut st.stack[*i as usize], path, t), Obj::H(i) => go(&mut st.heap[*i as usize], path, t), _ => {} }
    }
    // ------------------------------------------------------------ leaves
    /// flatten a value to scalars and opaque terms, following pointers
    pub fn flat(&mut self, st: &State, v: &Val, ct: Ct, out: &mut Vec<T>, depth: u32) {
        if depth > 12 { self.lose("value too deep"); return }
        match (self.c(ct).clone(), v) {
            (C::Zst, _) => {}
            (_, Val::Ptr(p)) => {
                if p.obj == Obj::Z { return }
                let c2 = self.ct_at(p);
                if let C::Slice(_) = self.c(c2) { self.lose("slice of unknown length passed on"); return }
                // one past the end
                let x = self.read_p(st, p);
                self.flat(st, &x, c2, out, depth + 1)
            }
            (C::Arr(e, _), _) => match self.expand(v, ct) { Val::Agg(x) => for y in x.iter() { self.flat(st, y, e, out, depth + 1) }, Val::Undef => {}, _ => self.lose("array") },
            (C::St(fs), _) => match self.expand(v, ct) { Val::Agg(x) => for (y, f) in x.iter().zip(fs.iter()) { self.flat(st, y, *f, out, depth + 1) }, _ => {} },
            (C::En(vs, _), _) => match self.expand(v, ct) { Val::Enum(x) => { out.push(x.0); let k = self.t.c(x.0); for (i, y) in x.1.iter().enumerate() { if k.is_some() && k != Some(i as u128) { continue } if let Val::Agg(z) = y { for (q, f) in z.iter().zip(vs[i].iter()) { self.flat(st, q, *f, out, depth + 1) } } } } _ => {} },
            (_, Val::T(t)) => out.push(*t),
            (_, Val::Ite(x)) => { out.push(x.0); self.flat(st, &x.1, ct, out, depth + 1); self.flat(st, &x.2, ct, out, depth + 1) }
            _ => {}
        }
    }
    pub fn flat_v(&mut self, st: &State, v: &Val, ct: Ct) -> Vec<T> { let mut o = vec![]; self.flat(st, v, ct, &mut o, 0); o }
    fn model(&mut self, st: &mut State, f: FnId, args: &[Val]) -> M {
        // most functions have no model: remember that
        if let Some(i) = self.modelix.get(&f) { let i = *i; if i == usize::MAX { return M::No } let m = self.models[i].clone(); return m(self.erase(), st, f, args) }
        for i in 0..self.models.len() { let m = self.models[i].clone(); match m(self.erase(), st, f, args) { M::No => {} r => { self.modelix.insert(f, i); return r } } }
        self.modelix.insert(f, usize::MAX);
        M::No
    }
    fn erase(&mut self) -> &mut Interp { unsafe { std::mem::transmute::<&mut Interp<'p>, &mut Interp>(self) } }
    /// the workspace function being analysed
    pub fn ws_fn(&self) -> FnId { *self.chain.iter().rev().find(|f| self.ws[**f as usize]).or(self.chain.last()).unwrap_or(&0) }
    pub fn event(&mut self, st: &State, kind: &str, terms: Vec<T>) { let func = self.ws_fn(); self.events.push(Event { kind: kind.into(), terms, func, pc: st.pc.clone() }) }
    /// an uninterpreted function of everything reachable from its arguments
    pub fn opaque_call(&mut self, st: &mut State, f: FnId, args: &[Val], name: &str) -> Val {
        let fun = &self.p.fns[f as usize];
        let mut fl = vec![];
        let at: Vec<Ct> = fun.args.iter().map(|a| self.ct(*a)).collect();
        for (i, a) in args.iter().enumerate() { let c = at.get(i).copied().unwrap_or(0); self.flat(st, a, c, &mut fl, 0) }
        for (i, a) in args.iter().enumerate() {
            let Some(ty) = fun.args.get(i) else { continue };
            if let TyKind::Ref(to, true) = self.p.tys[*ty as usize].kind {
                for (c, p) in self.locs(a, to) { let ct = self.ct_at(&p); let ap = self.t.app(&format!("mut{i}:{name}"), &fl); let v = self.fresh(ct, ap); let v = self.expand(&v, ct); self.write_p(st, &p, v, c) }
            }
        }
        let ct = self.ct(fun.ret);
        let ap = self.t.app(name, &fl);
        self.fresh(ct, ap)
    }
    fn leaf(&mut self, st: &mut State, f: FnId, args: &[Val]) -> Option<Val> {
        let fun = &self.p.fns[f as usize];
        let path = fun.path.as_str();
        if fun.krate == "core" && (path.contains("panicking::") || path.contains("unwrap_failed") || path.contains("_fail") || path.contains("panic_fmt") || path.contains("panic_")) || path.contains("begin_panic") || path.contains("handle_error") || path.contains("capacity_overflow") {
            let c = Terms::TRUE;
            self.alarm(st, format!("panic:{}", path.rsplit("::").next().unwrap_or(path)), c, String::new());
            return None
        }
        if let Some(n) = path.strip_prefix("intrinsic::") { return self.intrinsic(st, n, f, args) }
        if path.contains("fmt::Arguments") || path.contains("fmt::rt::Argument") { let a = self.t.app("fmt", &[]); let ct = self.ct(fun.ret); return Some(self.fresh(ct, a)) }
        let name = fun.name.clone();
        let v = self.opaque_call(st, f, args, &name);
        if self.leaf_calls.len() < 10000 { self.leaf_calls.push((f, args.to_vec(), Some(v.clone()), st.pc.clone())) }
        Some(v)
    }
    fn intrinsic(&mut self, st: &mut State, n: &str, f: FnId, a: &[Val]) -> Option<Val> {
        let fun = &self.p.fns[f as usize];
        let rw = self.width(fun.ret).map(|x| x.0).unwrap_or(64);
        let targ = fun.targs.first().copied();
        Some(match n {
            "assert_inhabited" | "assert_zero_valid" | "assert_mem_uninitialized_valid" | "cold_path" | "assume" | "forget" | "drop_in_place" => Val::Undef,
            "black_box" | "likely" | "unlikely" => a[0].clone(),
            "volatile_load" | "unaligned_volatile_load" | "read_via_copy" => { let t = targ.unwrap_or(0); let mut r = Val::Undef; for (k, (c, p)) in self.locs(&a[0], t).into_iter().rev().enumerate() { let v = self.read_p(st, &p); let ct = self.ct(t); r = if k == 0 { v } else { self.merge_ct(c, &v, &r, ct) } } r }
            "volatile_store" | "write_via_move" => { let t = targ.unwrap_or(0); for (c, p) in self.locs(&a[0], t) { self.write_p(st, &p, a[1].clone(), c) } Val::Undef }
            "ptr_offset_from_unsigned" | "ptr_offset_from" => {
                match (self.ptr_index(&a[0]), self.ptr_index(&a[1])) { (Some(i), Some(j)) => Val::T(self.t.bin(Op::Sub, i, j)), _ => { if matches!((&a[0], &a[1]), (Val::T(x), Val::T(y)) if x == y) { self.k(0, 64) } else { self.lose("distance of unrelated pointers"); self.k(0, 64) } } }
            }
            "integer_min" | "integer_max" => {
                let sg = self.width(fun.ret).map(|x| x.1).unwrap_or(false); let (x, y) = (self.as_t(&a[0]), self.as_t(&a[1]));
                let (p, q) = if sg { (self.flip(x), self.flip(y)) } else { (x, y) };
                let l = self.t.lt(p, q); let l = self.t.decide(l, &st.pc).map(|v| self.t.b(v)).unwrap_or(l);
                Val::T(if n == "integer_min" { self.t.ite(l, x, y) } else { self.t.ite(l, y, x) })
            }
            "ctpop" | "ctlz" | "cttz" | "ctlz_nonzero" | "cttz_nonzero" => {
                let x = self.as_t(&a[0]); let w = self.t.w(x);
                match self.t.c(x) { Some(v) => { let r = match n { "ctpop" => v.count_ones() as u128, "ctlz" | "ctlz_nonzero" => v.leading_zeros() as u128 - (128 - w as u128), _ => (v.trailing_zeros() as u128).min(w as u128) }; self.k(r, rw) } None if n == "ctpop" => { let mut r = self.t.konst(0, rw); for i in 0..bits(self.t.range(x).1).min(w) { let b = self.t.slice(x, i, 1, rw); r = self.t.bin(Op::Add, r, b) } Val::T(r) } None => { let ap = self.t.app(n, &[x]); Val::T(self.t.sel_r(ap, 0, rw, 0, w as u128)) } }
            }
            "bswap" => { let x = self.as_t(&a[0]); let w = self.t.w(x); let mut b = vec![]; for i in 0..w / 8 { b.push(self.t.slice(x, i * 8, 8, 8)) } b.reverse(); Val::T(self.t.concat(&b, w)) }
            "rotate_left" | "rotate_right" => { let x = self.as_t(&a[0]); let s = self.as_t(&a[1]); let w = self.t.w(x); match self.t.c(s) { Some(k) => { let k = (k as u16) % w; let k = if n == "rotate_left" { (w - k) % w } else { k }; if k == 0 { a[0].clone() } else { let lo = self.t.slice(x, k, w - k, w - k); let hi = self.t.slice(x, 0, k, k); Val::T(self.t.concat(&[lo, hi], w)) } } None => { let ap = self.t.app(n, &[x, s]); Val::T(self.t.sel(ap, 0, w)) } } }
            "saturating_sub" => { let (x, y) = (self.as_t(&a[0]), self.as_t(&a[1])); let w = self.t.w(x); let l = self.t.lt(x, y); let d = self.t.bin(Op::Sub, x, y); let z = self.t.konst(0, w); Val::T(self.t.ite(l, z, d)) }
            "saturating_add" => { let (x, y) = (self.as_t(&a[0]), self.as_t(&a[1])); let w = self.t.w(x); let d = self.t.bin(Op::Add, x, y); let l = self.t.lt(d, x); let m = self.t.konst(mask(w), w); Val::T(self.t.ite(l, m, d)) }
            "exact_div" => { let (x, y) = (self.as_t(&a[0]), self.as_t(&a[1])); Val::T(self.t.bin(Op::Div, x, y)) }
            "size_of_val" => { let t = targ.unwrap_or(0); match (&a[0], self.p.tys[t as usize].kind.clone()) { (Val::Ptr(p), TyKind::Slice(e)) => { let l = self.len_of(p); let es = self.p.tys[e as usize].size.unwrap_or(1); let k = self.us(es); Val::T(self.t.bin(Op::Mul, l, k)) } (Val::Ptr(p), TyKind::Str) => Val::T(self.len_of(p)), _ => { let s = self.p.tys[t as usize].size.unwrap_or(0); self.k(s as u128, 64) } } }
            "raw_eq" | "compare_bytes" => {
                let t = if n == "raw_eq" { targ.unwrap_or(0) } else { 0 };
                let (x, y) = if n == "raw_eq" {
                    let get = |s: &mut Self, v: &Val| { let ls = s.locs(v, t); match ls.first() { Some((_, p)) => { let x = s.read_p(st, p); let ct = s.ct(t); s.flat_v(st, &x, ct) } None => vec![] } };
                    (get(self, &a[0]), get(self, &a[1]))
                } else {
                    let l = self.as_t(&a[2]); let Some(l) = self.t.c(l) else { self.lose("comparison of unknown length"); return Some(self.k(0, rw)) };
                    let u8c = self.mk(C::Sc(8, false)); let ac = self.mk(C::Arr(u8c, l as u64));
                    let get = |s: &mut Self, v: &Val| { let q = s.cast_ptr(v.clone(), u8c, ac); if l == 0 { return vec![] } match &q { Val::Ptr(p) => { let x = s.read_p(st, p); s.flat_v(st, &x, ac) } _ => { s.lose("memory comparison"); vec![] } } };
                    (get(self, &a[0]), get(self, &a[1]))
                };
                if x.len() != y.len() { self.lose("memory comparison of different sizes") }
                let es: Vec<T> = x.iter().zip(y.iter()).map(|(p, q)| self.t.eq(*p, *q)).collect();
                let e = self.t.and(&es);
                // how long this takes depends on where the operands differ
                if self.t.c(e).is_none() { self.steered += 1; let tn = self.t.taint(e); if tn != 0 { self.branch(e, "comparison", tn) } }
                if n == "raw_eq" { Val::T(e) } else { let z = self.t.konst(0, rw); let mut fl = x.clone(); fl.extend(&y); let ap = self.t.app("memcmp", &fl); let o = self.t.sel_r(ap, 0, rw, 1, mask(rw)); Val::T(self.t.ite(e, z, o)) }
            }
            "copy_nonoverlapping" | "copy" | "volatile_copy_nonoverlapping_memory" => { let nn = self.as_t(&a[2]); self.copy(st, &a[0].clone(), &a[1].clone(), nn, targ.unwrap_or(0)); Val::Undef }
            "write_bytes" => {
                let nn = self.as_t(&a[2]); let t = targ.unwrap_or(0);
                let ct = self.ct(t); let b = self.as_t(&a[1]);
                match (self.t.c(nn), self.t.c(b), self.c(ct).clone()) {
                    (Some(k), Some(bv), C::Sc(w, _)) if bv == 0 || w == 8 => { let x = self.k(if w == 8 { bv } else { 0 }, w); let act = self.mk(C::Arr(ct, k as u64)); let q = self.cast_ptr(a[0].clone(), ct, act); for (c, p) in self.locs(&q, t) { self.write_p(st, &p, Val::Agg(Rc::new(vec![x.clone(); k as usize])), c) } Val::Undef }
                    (Some(0), _, _) => Val::Undef,
                    (Some(k), Some(0), C::Arr(e, m)) => { if let C::Sc(w, _) = *self.c(e) { let x = self.k(0, w); for i in 0..k as u64 { let d = self.us(i); let q = self.ptr_add(&a[0], d); for (c, p) in self.locs(&q, t) { self.write_p(st, &p, Val::Agg(Rc::new(vec![x.clone(); m as usize])), c) } } } else { self.lose("write_bytes") } Val::Undef }
                    _ => { self.lose("write_bytes"); Val::Undef }
                }
            }
            "discriminant_value" => { let t = targ.unwrap_or(0); let ct = self.ct(t); match self.locs(&a[0], t).first() { Some((_, p)) => { let p = p.clone(); let v = self.read_p(st, &p); Val::T(self.discr(&v, ct, rw)) } None => self.k(0, rw) } }
            "const_eval_select" => { self.lose("const_eval_select"); Val::Undef }
            "typed_swap_nonoverlapping" => {
                let t = targ.unwrap_or(0);
                let (p, q) = (self.locs(&a[0], t), self.locs(&a[1], t));
                if let (Some((_, p)), Some((_, q))) = (p.first(), q.first()) { let (x, y) = (self.read_p(st, p), self.read_p(st, q)); self.write_p(st, p, y, Terms::TRUE); self.write_p(st, q, x, Terms::TRUE) }
                Val::Undef
            }
            _ => { self.lose(format!("intrinsic {n}")); let ct = self.ct(fun.ret); let ap = self.t.app(n, &[]); self.fresh(ct, ap) }
        })
    }
    // ------------------------------------------------------------ inputs
    /// a fully symbolic value of the given type
    pub fn input(&mut self, name: &str, ct: Ct, taint: u64) -> Val {
        match self.c(ct).clone() {
            C::Zst => Val::Undef,
            C::Sc(w, _) => { let hi = if w == 64 { self.top } else { mask(w) }; Val::T(self.t.atom(name, w, 0, hi, taint)) }
            C::Arr(e, n) => { let r = (0..n).map(|i| self.input(&format!("{name}[{i}]"), e, taint)).collect(); Val::Agg(Rc::new(r)) }
            C::St(fs) => { let r = fs.iter().enumerate().map(|(i, f)| self.input(&format!("{name}.{i}"), *f, taint)).collect(); Val::Agg(Rc::new(r)) }
            C::En(vs, _) => {
                let x = self.t.atom(&format!("{name}?"), 64, 0, vs.len() as u128 - 1, taint);
                let ps = vs.iter().enumerate().map(|(v, fs)| Val::Agg(Rc::new(fs.iter().enumerate().map(|(i, f)| self.input(&format!("{name}.{v}.{i}"), *f, taint)).collect()))).collect();
                Val::Enum(Rc::new((x, ps)))
            }
            _ => Val::T(self.t.atom(name, 0, 0, 0, taint)),
        }
    }
    pub fn find_fn(&self, path: &str) -> Option<FnId> { self.p.fns.iter().position(|f| f.path == path && f.body.is_some()).map(|i| i as FnId) }
    pub fn start(&mut self, f: FnId, st: State, args: Vec<Val>) -> Option<(State, Val)> { self.steps = 0; self.call(st, f, args) }
}
pub struct Frame0(pub FnId, pub usize);

fn diff(a: &Val, b: &Val, path: &mut Vec<u32>, o: Obj, out: &mut Vec<((Obj, Vec<u32>), T, T)>, bad: &mut bool) {
    match (a, b) {
        (Val::T(x), Val::T(y)) => if x != y { out.push(((o, path.clone()), *x, *y)) },
        (Val::Agg(x), Val::Agg(y)) => { if Rc::ptr_eq(x, y) { return } if x.len() != y.len() { *bad = true; return } for i in 0..x.len() { path.push(i as u32); diff(&x[i], &y[i], path, o, out, bad); path.pop(); } }
        (Val::Enum(x), Val::Enum(y)) => { if Rc::ptr_eq(x, y) { return } if x.0 != y.0 { path.push(0); out.push(((o, path.clone()), x.0, y.0)); path.pop(); } for i in 0..x.1.len().min(y.1.len()) { path.push(i as u32 + 1); diff(&x.1[i], &y.1[i], path, o, out, bad); path.pop(); } }
        (Val::Ptr(x), Val::Ptr(y)) => {
            if x == y { return }
            if x.obj != y.obj || x.steps.len() != y.steps.len() { *bad = true; return }
            for (i, (p, q)) in x.steps.iter().zip(y.steps.iter()).enumerate() {
                match (p, q) {
                    (p, q) if p == q => {}
                    (Step::I(u), Step::I(v)) => { path.push(2 * i as u32); out.push(((o, path.clone()), *u, *v)); path.pop(); }
                    (Step::Sub(u, l), Step::Sub(v, m)) => { if u != v { path.push(2 * i as u32); out.push(((o, path.clone()), *u, *v)); path.pop(); } if l != m { path.push(2 * i as u32 + 1); out.push(((o, path.clone()), *l, *m)); path.pop(); } }
                    _ => *bad = true,
                }
            }
        }
        // values that are not defined on entry are not carried around the loop
        (Val::Undef, _) | (_, Val::Undef) => {}
        (Val::Fn(x), Val::Fn(y)) if x == y => {}
        (Val::Ite(x), Val::Ite(y)) if Rc::ptr_eq(x, y) => {}
        _ => *bad = true,
    }
}
