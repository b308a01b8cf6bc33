//! Entry points evaluated one after another on the same unknown values.
use crate::interp::*;
use crate::kyber::Findings;
use crate::models;
use crate::term::*;
use crate::util;
use ir::*;
use std::rc::Rc;

pub struct Sim { pub it: Interp<'static>, pub st: State, pub ns: String, /* which sizes of payloads the handshake steps are taken with */ pub shape: &'static str }
impl Sim {
    pub fn new(p: &'static Program, ns: &str) -> Sim { let mut it = Interp::new(p); models::install_wire(&mut it); Sim { it, st: State::default(), ns: ns.into(), shape: "" } }
    pub fn session(p: &'static Program) -> Sim { let mut it = Interp::new(p); crate::curve::install(&mut it); models::install_wire(&mut it); Sim { it, st: State::default(), ns: "session".into(), shape: "" } }
    pub fn path(&self, root: &str) -> String { format!("{}::{root}{}", self.ns, if root.starts_with("take") { self.shape } else { "" }) }
    pub fn f(&mut self, root: &str) -> Option<FnId> { let p = self.path(root); let f = self.it.find_fn(&p); if f.is_none() { self.it.lose(format!("entry point {p} is gone")) } f }
    /// evaluate an entry point; nothing comes back when it always panics
    pub fn call(&mut self, root: &str, args: Vec<Val>) -> Option<Val> {
        let f = self.f(root)?;
        let r = self.it.start(f, self.st.clone(), args);
        match r { Some((st, v)) => { self.st = st; Some(v) } None => None }
    }
    fn byte(&mut self) -> Ct { self.it.mk(C::Sc(8, false)) }
    pub fn bytes(&mut self, name: &str, n: usize, taint: u64) -> Vec<T> { (0..n).map(|i| self.it.t.atom(&format!("{name}[{i}]"), 8, 0, 255, taint)).collect() }
    /// a slice with the given contents
    pub fn slice(&mut self, x: &[T]) -> Val { let b = self.byte(); self.it.new_slice(&mut self.st, x.iter().map(|t| Val::T(*t)).collect(), b) }
    /// a reference to a vector with the given contents
    pub fn vec(&mut self, x: &[T]) -> Val { let s = self.slice(x); let c = self.it.mk(C::Ptr); self.it.new_ptr(&mut self.st, s, c) }
    pub fn arr(&mut self, x: &[T]) -> Val { Val::Agg(Rc::new(x.iter().map(|t| Val::T(*t)).collect())) }
    pub fn arg_ty(&mut self, root: &str, i: usize) -> TyId { match self.f(root) { Some(f) => { let t = self.it.p.fns[f as usize].args[i]; self.it.pointee(t).unwrap_or(t) } None => 0 } }
    pub fn ret_ty(&mut self, root: &str) -> TyId { match self.f(root) { Some(f) => self.it.p.fns[f as usize].ret, None => 0 } }
    /// an unknown value of the type of a parameter
    pub fn unknown(&mut self, root: &str, i: usize, name: &str) -> Val { let t = self.arg_ty(root, i); let ct = self.it.ct(t); self.it.input(name, ct, 0) }
    pub fn at(&mut self, root: &str, i: usize, v: Val) -> Val { let t = self.arg_ty(root, i); let ct = self.it.ct(t); self.it.new_ptr(&mut self.st, v, ct) }
    /// what a reference leads to
    pub fn get(&mut self, v: &Val) -> Val { match v { Val::Ptr(p) => self.it.read_p(&self.st, p), v => { let s = format!("{v:?}"); self.it.lose(format!("reference expected, found {}", s.chars().take(60).collect::<String>())); Val::Undef } } }
    /// the bytes behind a slice or a reference to a vector
    pub fn text(&mut self, v: &Val) -> Vec<T> {
        let mut v = v.clone();
        if let Val::Ptr(p) = &v { let ct = self.it.ct_at(p); if matches!(self.it.c(ct), C::Ptr) { v = self.get(&v) } }
        let Val::Ptr(p) = &v else { self.it.lose("bytes expected"); return vec![] };
        let n = self.it.len_of(p);
        if self.it.t.c(n) == Some(0) { return vec![] }
        let ct = self.it.ct_at(p);
        self.it.flat_v(&self.st.clone(), &v, ct)
    }
    pub fn flat(&mut self, v: &Val, ty: TyId) -> Vec<T> { let ct = self.it.ct(ty); self.it.flat_v(&self.st.clone(), v, ct) }
    /// component of a tuple returned by an entry point
    pub fn part(&mut self, root: &str, v: &Val, i: usize) -> Val { let t = self.ret_ty(root); let ct = self.it.ct(t); match self.it.expand(v, ct) { Val::Agg(x) if i < x.len() => x[i].clone(), _ => { self.it.lose("tuple expected"); Val::Undef } } }
    /// condition of success and value of a result returned by an entry point
    pub fn result(&mut self, root: &str, v: &Val) -> (T, Val) {
        let t = self.ret_ty(root); let ct = self.it.ct(t);
        match self.it.expand(v, ct) {
            Val::Enum(x) => { let z = self.it.us(0); let c = self.it.t.eq(x.0, z); let p = match &x.1.first() { Some(Val::Agg(y)) if !y.is_empty() => y[0].clone(), _ => Val::Undef }; (c, p) }
            _ => { self.it.lose("result expected"); (Terms::FALSE, Val::Undef) }
        }
    }
    /// the analysis followed everything, and nothing panicked
    pub fn clean(&mut self, fs: &mut Findings, what: &str) { self.follows(fs, what); self.quiet(fs, what) }
    /// the analysis followed everything
    pub fn follows(&mut self, fs: &mut Findings, what: &str) {
        fs.ok("complete analysis", 1);
        for s in self.it.lost.clone() { fs.viol("complete analysis", format!("{what}:{}", s.chars().take(120).collect::<String>()), format!("the analysis cannot follow {s} ({})", self.ns)) }
        let p = self.it.p;
        for f in self.it.seen.iter() { let f = &p.fns[*f as usize]; if util::is_ws(&f.krate) { fs.funs.insert(f.path.clone()); } }
    }
    pub fn quiet(&mut self, fs: &mut Findings, what: &str) {
        let p = self.it.p;
        let n: u64 = self.it.ok_asserts.values().sum();
        fs.ok("no overflow, no out-of-range access, no panic", n + 1);
        for a in self.it.alarms.clone() {
            let (w, g) = (&p.fns[a.ws as usize].path, &p.fns[a.func as usize].path);
            fs.viol("no overflow, no out-of-range access, no panic", format!("{}:{w}", a.kind), format!("{} can fail in {g}, reached from {w} at {} ({what}, {}): {}", a.kind, util::line(p, a.span), self.ns, a.text));
        }
        for f in self.it.seen.iter() { let f = &p.fns[*f as usize]; if util::is_ws(&f.krate) { fs.funs.insert(f.path.clone()); } }
    }
    pub fn show(&self, t: T) -> String { self.it.t.show_d(t, 6).chars().take(300).collect() }
    pub fn shows(&self, ts: &[T]) -> String { ts.iter().map(|t| self.show(*t)).collect::<Vec<_>>().join(" | ").chars().take(600).collect() }
}
