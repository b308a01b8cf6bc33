//! Interprocedural flow graph with a small path-sensitive value domain (constants, variants, call results),
//! for control properties: what every path from one call to another must pass.
use fxhash::{FxHashMap, FxHashSet};
use ir::*;
use std::collections::BTreeMap;
use std::rc::Rc;

pub type SId = u32;
pub type Cx = u32;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum V {
    Undef,
    Int(u128),
    /// a fieldless or structured value: variant, overridden fields over an optional base
    Agg(Rc<Agg>),
    Sym(SId),
    Ref(Cx, u32, Rc<[u32]>),
    Fn(FnId),
    Str(Rc<str>),
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Agg { pub ty: TyId, pub variant: u32, pub base: Option<SId>, pub fields: BTreeMap<u32, V> }

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum S {
    Arg(u32),
    /// result of a leaf call at (context, block)
    Call(Cx, u32, FnId, Rc<[V]>),
    /// contents left behind by a leaf call in its i-th argument
    Out(Cx, u32, FnId, u32),
    /// the same for a part of it
    Upd(V, u64, u64, V),
    /// these bytes of a value
    Part(V, u64, u64),
    Field(SId, u32, u32),
    Deref(SId),
    Discr(SId),
    Un(u8, V),
    Bin(Bin, V, V),
    /// a slice made from an array of this length
    Unsize(V, u64),
    Opaque(Cx, u32, u32),
    Static(Rc<str>),
}
#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct Fact { pub lo: u128, pub hi: u128, pub ne: Vec<u128> }

#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct State { pub env: BTreeMap<(Cx, u32), V>, pub facts: BTreeMap<SId, Fact> }

pub struct CtxInfo { pub f: FnId, pub parent: Option<(Cx, u32)>, pub depth: u32 }

#[derive(Clone, Debug)]
pub enum Ev {
    /// leaf call: callee, arguments, result
    /// with the contents of the memory the arguments point to and the guards held
    Call { f: FnId, args: Vec<V>, derefs: Vec<V>, res: Option<SId>, held: Vec<SId>, span: SpanId },
    /// construction of an ADT value
    Make { ty: TyId, variant: u32, fields: Vec<V> },
    Drop { v: V, ty: TyId },
    /// a panic: failed assertion or call that never returns
    Panic { what: String, span: SpanId },
    Return { v: V },
}
#[derive(Clone, Debug)]
pub struct Edge { pub to: usize, pub cond: Option<(V, Option<u128>)> }
pub struct Node { pub cx: Cx, pub bb: u32, pub st: Rc<State>, pub ev: Vec<Ev>, pub succ: Vec<Edge>, pub span: SpanId }

pub struct Opts<'a> {
    pub inline: &'a dyn Fn(&Func) -> bool,
    /// facts about results of these calls are kept while the result is dead
    pub sticky: &'a dyn Fn(&Func) -> bool,
    /// values to be kept until dropped
    pub guard: &'a dyn Fn(&Func) -> bool,
}

pub struct Flow<'a> {
    pub p: &'a Program,
    pub o: Opts<'a>,
    pub s: Vec<S>,
    six: FxHashMap<S, SId>,
    depth: Vec<u32>,
    subs: Vec<Rc<[SId]>>,
    pub cx: Vec<CtxInfo>,
    cxix: FxHashMap<(FnId, Option<(Cx, u32)>), Cx>,
    pub n: Vec<Node>,
    nix: FxHashMap<(Cx, u32, Rc<State>), usize>,
    live: FxHashMap<FnId, Rc<Vec<FxHashSet<u32>>>>,
    diverges: FxHashMap<FnId, bool>,
    pub overflow: bool,
    cxcb: FxHashSet<Cx>,
    count: FxHashMap<(Cx, u32), usize>,
    at: u32,
    pub root: usize,
}

const MAX_DEPTH: u32 = 14;
const MAX_NODES: usize = 120_000;
const WIDEN: usize = 300;
const CALL_DEPTH: u32 = 16;
/// where a callback keeps what it captured
const CAPTURES: u32 = u32::MAX;

impl<'a> Flow<'a> {
    pub fn run(p: &'a Program, root: FnId, o: Opts<'a>) -> Flow<'a> {
        let mut f = Flow { p, o, s: vec![], six: Default::default(), depth: vec![], subs: vec![], cx: vec![], cxix: Default::default(), n: vec![], nix: Default::default(), live: Default::default(), diverges: Default::default(), overflow: false, cxcb: Default::default(), count: Default::default(), at: 0, root: 0 };
        let cx = f.ctx(root, None);
        let mut st = State::default();
        let nargs = p.fns[root as usize].body.as_ref().map(|b| b.arg_count).unwrap_or(0);
        for i in 1..=nargs { let s = f.sym(S::Arg(i as u32)); st.env.insert((cx, i as u32), V::Sym(s)); }
        let mut work = vec![];
        f.root = f.node(cx, 0, st, &mut work);
        while let Some(i) = work.pop() {
            if f.n.len() > MAX_NODES { f.overflow = true; break }
            f.step(i, &mut work);
        }
        f
    }
    pub fn sym(&mut self, s: S) -> SId {
        if let Some(i) = self.six.get(&s) { return *i }
        let mut subs: Vec<SId> = vec![];
        let mut d = 0;
        let mut add = |me: &Self, x: SId| { d = d.max(me.depth[x as usize] + 1); subs.push(x); subs.extend(me.subs[x as usize].iter()); };
        fn vs(v: &V, out: &mut Vec<SId>) { match v { V::Sym(s) => out.push(*s), V::Agg(a) => { if let Some(b) = a.base { out.push(b) } for f in a.fields.values() { vs(f, out) } } _ => {} } }
        let mut direct = vec![];
        match &s {
            S::Field(x, ..) | S::Deref(x) | S::Discr(x) => direct.push(*x),
            S::Call(_, _, _, a) => a.iter().for_each(|v| vs(v, &mut direct)),
            S::Un(_, v) | S::Unsize(v, _) | S::Part(v, ..) => vs(v, &mut direct),
            S::Upd(a, _, _, b) | S::Bin(_, a, b) => { vs(a, &mut direct); vs(b, &mut direct) }
            _ => {}
        }
        for x in direct { add(self, x) }
        subs.sort(); subs.dedup();
        let i = self.s.len() as SId;
        self.s.push(s.clone());
        self.depth.push(d);
        self.subs.push(subs.into());
        self.six.insert(s, i);
        i
    }
    pub fn contains(&self, s: SId, x: SId) -> bool { s == x || self.subs[s as usize].binary_search(&x).is_ok() }
    pub fn subterms(&self, s: SId) -> &[SId] { &self.subs[s as usize] }
    pub fn syms_of(&self, v: &V) -> Vec<SId> {
        let mut o = vec![];
        self.syms_into(v, &mut o);
        o
    }
    fn syms_into(&self, v: &V, o: &mut Vec<SId>) {
        match v { V::Sym(s) => { o.push(*s); o.extend(self.subs[*s as usize].iter()) } V::Agg(a) => { if let Some(b) = a.base { o.push(b) } for f in a.fields.values() { self.syms_into(f, o) } } _ => {} }
    }
    fn ctx(&mut self, f: FnId, parent: Option<(Cx, u32)>) -> Cx {
        if let Some(c) = self.cxix.get(&(f, parent)) { return *c }
        let depth = parent.map(|p| self.cx[p.0 as usize].depth + 1).unwrap_or(0);
        let c = self.cx.len() as Cx;
        self.cx.push(CtxInfo { f, parent, depth });
        self.cxix.insert((f, parent), c);
        c
    }
    pub fn func(&self, f: FnId) -> &'a Func { &self.p.fns[f as usize] }
    fn body(&self, cx: Cx) -> &'a Body { self.p.fns[self.cx[cx as usize].f as usize].body.as_ref().unwrap() }
    fn on_stack(&self, mut cx: Cx, f: FnId) -> bool { loop { if self.cx[cx as usize].f == f { return true } match self.cx[cx as usize].parent { Some((p, _)) => cx = p, None => return false } } }

    /// locals live on entry of each block; borrowed locals count as live
    fn liveness(&mut self, f: FnId) -> Rc<Vec<FxHashSet<u32>>> {
        if let Some(l) = self.live.get(&f) { return l.clone() }
        let b = self.p.fns[f as usize].body.as_ref().unwrap();
        let n = b.blocks.len();
        let mut live: Vec<FxHashSet<u32>> = vec![Default::default(); n];
        loop {
            let mut changed = false;
            for i in (0..n).rev() {
                let bl = &b.blocks[i];
                let mut l: FxHashSet<u32> = Default::default();
                for s in succs(&bl.term) { l.extend(live[s].iter()) }
                fn pl(p: &Place, l: &mut FxHashSet<u32>) { l.insert(p.local as u32); for e in &p.proj { if let Proj::Index(x) = e { l.insert(*x as u32); } } }
                fn op(o: &Operand, l: &mut FxHashSet<u32>) { match o { Operand::Copy(p) | Operand::Move(p) => pl(p, l), _ => {} } }
                match &bl.term {
                    Term::Switch(o, ..) => op(o, &mut l),
                    Term::Return => { l.insert(0); }
                    Term::Drop(p, _) => pl(p, &mut l),
                    Term::Call { func, args, dest, .. } => {
                        if dest.proj.is_empty() { l.remove(&(dest.local as u32)); } else { pl(dest, &mut l) }
                        if let Callee::Indirect(o) = func { op(o, &mut l) }
                        for a in args { op(a, &mut l) }
                    }
                    Term::Assert { cond, ops, .. } => { op(cond, &mut l); for o in ops { op(o, &mut l) } }
                    _ => {}
                }
                for (s, _) in bl.stmts.iter().rev() {
                    match s {
                        Stmt::Assign(d, r) => {
                            if d.proj.is_empty() { l.remove(&(d.local as u32)); } else { pl(d, &mut l) }
                            match r {
                                Rvalue::Use(o) | Rvalue::Repeat(o, _) | Rvalue::Un(_, o) | Rvalue::Cast(_, o, _) => op(o, &mut l),
                                Rvalue::Bin(_, x, y) | Rvalue::Checked(_, x, y) => { op(x, &mut l); op(y, &mut l) }
                                Rvalue::Ref(p, _) | Rvalue::RawPtr(p) | Rvalue::Discr(p) | Rvalue::Len(p) => pl(p, &mut l),
                                Rvalue::Agg(_, xs) => for x in xs { op(x, &mut l) },
                                Rvalue::ThreadLocal(_) => {}
                            }
                        }
                        Stmt::SetDiscr(p, _) => pl(p, &mut l),
                        _ => {}
                    }
                }
                if l.len() != live[i].len() { live[i] = l; changed = true }
            }
            if !changed { break }
        }
        let r = Rc::new(live);
        self.live.insert(f, r.clone());
        r
    }
    /// locals the value refers to
    fn refs_in(&self, v: &V, o: &mut Vec<(Cx, u32)>) {
        match v {
            V::Ref(c, l, _) => o.push((*c, *l)),
            V::Agg(a) => { if let Some(b) = a.base { self.refs_in(&V::Sym(b), o) } for f in a.fields.values() { self.refs_in(f, o) } }
            V::Sym(s) => for x in [*s].iter().chain(self.subs[*s as usize].iter()) {
                match &self.s[*x as usize] { S::Call(_, _, _, a) => for v in a.iter() { if !matches!(v, V::Sym(_)) { self.refs_in(v, o) } }, S::Un(_, v) | S::Unsize(v, _) | S::Part(v, ..) if !matches!(v, V::Sym(_)) => self.refs_in(v, o), S::Bin(_, a, b) | S::Upd(a, _, _, b) => for v in [a, b] { if !matches!(v, V::Sym(_)) { self.refs_in(v, o) } }, _ => {} }
            },
            _ => {}
        }
    }
    /// is the value an owned guard (or does it contain one)?
    pub fn guards_in(&self, v: &V, out: &mut Vec<SId>) {
        match v {
            V::Sym(s) => {
                let mut x = *s;
                loop {
                    match &self.s[x as usize] {
                        S::Field(y, ..) => x = *y,
                        S::Call(_, _, f, _) => { if (self.o.guard)(self.func(*f)) { out.push(x) } break }
                        _ => break,
                    }
                }
            }
            V::Agg(a) => for f in a.fields.values() { self.guards_in(f, out) },
            _ => {}
        }
    }
    fn node(&mut self, cx: Cx, bb: u32, mut st: State, work: &mut Vec<usize>) -> usize {
        // forget dead values and facts about them
        let live = self.liveness(self.cx[cx as usize].f);
        let lv = &live[bb as usize];
        let mut keep: FxHashSet<(Cx, u32)> = Default::default();
        let mut w: Vec<(Cx, u32)> = vec![];
        for ((c, l), v) in &st.env {
            let alive = *c != cx || lv.contains(l) || { let mut g = vec![]; self.guards_in(v, &mut g); !g.is_empty() };
            if alive { w.push((*c, *l)) }
        }
        while let Some(k) = w.pop() {
            if !keep.insert(k) { continue }
            if let Some(v) = st.env.get(&k) { self.refs_in(v, &mut w) }
        }
        st.env.retain(|k, _| keep.contains(k));
        st.env.retain(|_, v| *v != V::Undef);
        let mut used: FxHashSet<SId> = Default::default();
        for v in st.env.values() { used.extend(self.syms_of(v)) }
        let mut keep: Vec<SId> = vec![];
        for k in st.facts.keys() {
            let mut base = vec![];
            self.bases(*k, &mut base);
            if base.iter().any(|x| used.contains(x)) || self.subs[*k as usize].iter().chain([k]).any(|x| matches!(&self.s[*x as usize], S::Call(_, _, f, _) if (self.o.sticky)(self.func(*f)))) { keep.push(*k) }
        }
        if keep.len() != st.facts.len() { st.facts = keep.into_iter().map(|k| (k, st.facts[&k].clone())).collect(); }
        let many = self.count.get(&(cx, bb)).copied().unwrap_or(0);
        if many > WIDEN {
            // too many states of one point (a loop of the library): forget what its locals hold and what is known of the rest
            let own: Vec<(Cx, u32)> = st.env.keys().filter(|k| !crate::util::is_ws(&self.func(self.cx[k.0 as usize].f).krate)).copied().collect();
            for k in own { st.env.remove(&k); }
            if many > 2 * WIDEN { st.facts.clear(); }
        }
        let st = Rc::new(st);
        let key = (cx, bb, st.clone());
        if let Some(i) = self.nix.get(&key) { return *i }
        *self.count.entry((cx, bb)).or_default() += 1;
        let i = self.n.len();
        let span = self.body(cx).blocks[bb as usize].span;
        self.n.push(Node { cx, bb, st, ev: vec![], succ: vec![], span });
        self.nix.insert(key, i);
        work.push(i);
        i
    }
    /// the values a fact is about
    fn bases(&self, k: SId, out: &mut Vec<SId>) {
        match &self.s[k as usize] {
            S::Field(x, ..) | S::Deref(x) | S::Discr(x) => self.bases(*x, out),
            S::Un(_, v) | S::Unsize(v, _) | S::Part(v, ..) => self.bases_v(v, out),
            S::Bin(_, a, b) => { self.bases_v(a, out); self.bases_v(b, out) }
            S::Call(_, u32::MAX, _, a) => a.iter().for_each(|v| self.bases_v(v, out)),
            _ => out.push(k),
        }
    }
    fn bases_v(&self, v: &V, out: &mut Vec<SId>) { match v { V::Sym(s) => self.bases(*s, out), V::Agg(a) => { if let Some(b) = a.base { self.bases(b, out) } for f in a.fields.values() { self.bases_v(f, out) } } _ => {} } }
    fn get(&mut self, st: &State, cx: Cx, local: u32, path: &[u32]) -> V {
        let mut v = st.env.get(&(cx, local)).cloned().unwrap_or(V::Undef);
        for f in path { v = self.field(&v, *f) }
        v
    }
    pub fn field(&mut self, v: &V, f: u32) -> V {
        match v {
            V::Agg(a) => match a.fields.get(&f) { Some(x) => x.clone(), None => match a.base { Some(b) => self.fsym(b, f), None => V::Undef } },
            V::Sym(s) => self.fsym(*s, f),
            _ => V::Undef,
        }
    }
    fn fsym(&mut self, s: SId, f: u32) -> V { if self.depth[s as usize] > MAX_DEPTH { return V::Undef } V::Sym(self.sym(S::Field(s, 0, f))) }
    fn set(&mut self, st: &mut State, cx: Cx, local: u32, path: &[u32], v: V) {
        let cur = st.env.get(&(cx, local)).cloned().unwrap_or(V::Undef);
        let n = self.put(&cur, path, v);
        st.env.insert((cx, local), n);
    }
    fn put(&mut self, cur: &V, path: &[u32], v: V) -> V {
        if path.is_empty() { return v }
        let mut a = match cur { V::Agg(a) => (**a).clone(), V::Sym(s) => Agg { ty: u32::MAX, variant: u32::MAX, base: Some(*s), fields: Default::default() }, _ => Agg { ty: u32::MAX, variant: u32::MAX, base: None, fields: Default::default() } };
        let sub = match a.fields.get(&path[0]) { Some(x) => x.clone(), None => match a.base { Some(b) => self.fsym(b, path[0]), None => V::Undef } };
        let n = self.put(&sub, &path[1..], v);
        a.fields.insert(path[0], n);
        V::Agg(Rc::new(a))
    }
    /// resolve a place to either a memory location or a symbolic place
    fn loc(&mut self, st: &State, cx: Cx, p: &Place) -> Result<(Cx, u32, Vec<u32>), V> {
        let mut cur: Result<(Cx, u32, Vec<u32>), V> = Ok((cx, p.local as u32, vec![]));
        for e in &p.proj {
            cur = match (e, cur) {
                (Proj::Deref, c) => {
                    let v = match c { Ok((c, l, path)) => self.get(st, c, l, &path), Err(v) => v };
                    match v { V::Ref(c, l, path) => Ok((c, l, path.to_vec())), V::Sym(s) => { if self.depth[s as usize] > MAX_DEPTH { Err(V::Undef) } else { Err(V::Sym(self.sym(S::Deref(s)))) } } _ => Err(V::Undef) }
                }
                (Proj::Field(i, _), Ok((c, l, mut path))) => { path.push(*i as u32); Ok((c, l, path)) }
                (Proj::Field(i, _), Err(v)) => Err(self.field(&v, *i as u32)),
                (Proj::Downcast(_) | Proj::Cast(_), c) => c,
                (_, _) => Err(V::Undef),
            };
        }
        cur
    }
    fn read(&mut self, st: &State, cx: Cx, p: &Place) -> V { match self.loc(st, cx, p) { Ok((c, l, path)) => self.get(st, c, l, &path), Err(v) => v } }
    fn write(&mut self, st: &mut State, cx: Cx, p: &Place, v: V) {
        match self.loc(st, cx, p) {
            Ok((c, l, path)) => self.set(st, c, l, &path, v),
            Err(e) => {
                // a part of something: whatever is known of the whole is gone
                for k in (0..p.proj.len()).rev() {
                    let q = Place { local: p.local, proj: p.proj[..k].to_vec(), ty: p.ty };
                    let at = match self.loc(st, cx, &q) { Ok((c, l, path)) => { let x = self.get(st, c, l, &path); if let (V::Ref(..) | V::Sym(_), Some(Proj::Deref)) = (&x, p.proj.get(k)) { self.root(&x).map(|x| (x.0, x.1, x.2)) } else { Some((c, l, path)) } } Err(x) => self.root(&x).map(|x| (x.0, x.1, x.2)) };
                    if let Some((c, l, path)) = at {
                        let o = self.sym(S::Opaque(cx, self.at, CAPTURES - 1));
                        let subs = &self.subs; st.facts.retain(|x, _| *x != o && !subs[*x as usize].contains(&o));
                        self.set(st, c, l, &path, V::Sym(o));
                        break
                    }
                }
                if let V::Sym(s) = e { self.forget(st, s) }
            }
        }
    }
    /// drop facts that may be about memory behind the symbolic place
    fn forget(&mut self, st: &mut State, s: SId) {
        let mut r = s; while let S::Field(x, ..) = self.s[r as usize] { r = x }
        let subs = &self.subs;
        st.facts.retain(|k, _| !(*k == r || subs[*k as usize].binary_search(&r).is_ok()));
    }
    fn konst(&mut self, c: &Const, t: TyId) -> V {
        match c {
            Const::Int(x) => V::Int(*x),
            Const::Agg(v, fs) => { let fields = fs.iter().enumerate().map(|(i, f)| (i as u32, self.konst(f, u32::MAX))).collect(); V::Agg(Rc::new(Agg { ty: t, variant: *v as u32, base: None, fields })) }
            Const::Str(s) => V::Str(s.as_str().into()),
            Const::Bytes(b) => V::Str(format!("{b:?}").into()),
            Const::Ref(x, t) => { let v = self.konst(x, *t); match v { V::Str(_) => v, v => { let s = self.sym(S::Un(9, v)); V::Sym(s) } } }
            Const::Fn(f) => V::Fn(*f),
            Const::Static(n) => V::Sym(self.sym(S::Static(n.as_str().into()))),
            Const::Zst => V::Agg(Rc::new(Agg { ty: t, variant: 0, base: None, fields: Default::default() })),
            _ => V::Undef,
        }
    }
    fn operand(&mut self, st: &mut State, cx: Cx, o: &Operand) -> V {
        match o {
            Operand::Copy(p) => self.read(st, cx, p),
            Operand::Move(p) => { let v = self.read(st, cx, p); if let Ok((c, l, path)) = self.loc(st, cx, p) { self.set(st, c, l, &path, V::Undef) } v }
            Operand::Const(c, t) => self.konst(c, *t),
            Operand::RuntimeChecks => V::Int(0),
        }
    }
    pub fn deref_const(&self, v: &V) -> Option<V> { if let V::Sym(s) = v { if let S::Un(9, x) = &self.s[*s as usize] { return Some(x.clone()) } } None }
    fn bin(&mut self, b: Bin, x: V, y: V) -> V {
        if let (V::Int(a), V::Int(c)) = (&x, &y) {
            let r = match b { Bin::Eq => a == c, Bin::Ne => a != c, Bin::Lt => a < c, Bin::Le => a <= c, Bin::Gt => a > c, Bin::Ge => a >= c, Bin::And => return V::Int(a & c), Bin::Or => return V::Int(a | c), _ => return V::Undef };
            return V::Int(r as u128)
        }
        if x == V::Undef || y == V::Undef { return V::Undef }
        // canonical: constant on the right, no Ne/Gt/Ge against constants
        let (b, x, y) = match (&x, b) { (V::Int(_), Bin::Eq | Bin::Ne) => (b, y, x), (V::Int(_), Bin::Lt) => (Bin::Gt, y, x), (V::Int(_), Bin::Le) => (Bin::Ge, y, x), (V::Int(_), Bin::Gt) => (Bin::Lt, y, x), (V::Int(_), Bin::Ge) => (Bin::Le, y, x), _ => (b, x, y) };
        match b {
            Bin::Ne => { let e = self.sym(S::Bin(Bin::Eq, x, y)); self.not(V::Sym(e)) }
            Bin::Ge => { let e = self.sym(S::Bin(Bin::Lt, x, y)); self.not(V::Sym(e)) }
            Bin::Gt => { let e = self.sym(S::Bin(Bin::Le, x, y)); self.not(V::Sym(e)) }
            Bin::Eq | Bin::Lt | Bin::Le | Bin::And | Bin::Or => if self.syms_of(&x).iter().chain(self.syms_of(&y).iter()).any(|s| self.depth[*s as usize] > MAX_DEPTH) { V::Undef } else { V::Sym(self.sym(S::Bin(b, x, y))) },
            _ => V::Undef,
        }
    }
    fn not(&mut self, v: V) -> V {
        match v { V::Int(x) => V::Int((x == 0) as u128), V::Sym(s) => { if let S::Un(0, x) = &self.s[s as usize] { return x.clone() } V::Sym(self.sym(S::Un(0, V::Sym(s)))) } _ => V::Undef }
    }
    fn ty(&self, t: TyId) -> Option<&'a Ty> { self.p.tys.get(t as usize) }
    fn rvalue(&mut self, st: &mut State, cx: Cx, r: &Rvalue, at: (u32, u32), ev: &mut Vec<Ev>) -> V {
        match r {
            Rvalue::Use(o) => self.operand(st, cx, o),
            Rvalue::Ref(p, _) | Rvalue::RawPtr(p) => match self.loc(st, cx, p) {
                Ok((c, l, path)) => V::Ref(c, l, path.into()),
                // &*x is x
                Err(V::Sym(s)) => if let S::Deref(x) = self.s[s as usize] { V::Sym(x) } else { V::Sym(self.sym(S::Un(9, V::Sym(s)))) },
                Err(v) => v,
            },
            Rvalue::Bin(b, x, y) => { let x = self.operand(st, cx, x); let y = self.operand(st, cx, y); self.bin(*b, x, y) }
            Rvalue::Checked(_, x, y) => { self.operand(st, cx, x); self.operand(st, cx, y); V::Undef }
            Rvalue::Un(Un::Not, x) => { let v = self.operand(st, cx, x); if let V::Int(_) = v { if !self.is_bool(x) { return V::Undef } } self.not(v) }
            Rvalue::Un(Un::PtrMeta, x) => { let v = self.operand(st, cx, x); match self.mem_len(&v) { Some(n) => V::Int(n as u128), None => V::Undef } }
            Rvalue::Un(..) => V::Undef,
            Rvalue::Cast(CastK::Unsize, x, t) => {
                let n = self.unsize_len(x, *t);
                let v = self.operand(st, cx, x);
                match (n, &v) { (Some(n), V::Ref(..) | V::Sym(_)) => V::Sym(self.sym(S::Unsize(v, n))), _ => v }
            }
            Rvalue::Cast(CastK::IntToInt | CastK::Transmute | CastK::PtrToPtr | CastK::ReifyFn, x, _) => self.operand(st, cx, x),
            Rvalue::Cast(_, x, _) => { self.operand(st, cx, x); V::Undef }
            Rvalue::Discr(p) => {
                let v = self.read(st, cx, p);
                match v {
                    V::Agg(a) if a.variant != u32::MAX => match self.ty(p.ty).map(|t| &t.kind) { Some(TyKind::Adt { variants, .. }) => variants.get(a.variant as usize).map(|v| V::Int(v.discr)).unwrap_or(V::Undef), _ => V::Undef },
                    V::Agg(a) => match a.base { Some(s) => V::Sym(self.sym(S::Discr(s))), None => V::Undef },
                    V::Sym(s) if self.depth[s as usize] <= MAX_DEPTH => V::Sym(self.sym(S::Discr(s))),
                    _ => V::Undef,
                }
            }
            Rvalue::Agg(k, xs) => {
                let fs: Vec<V> = xs.iter().map(|x| self.operand(st, cx, x)).collect();
                let (ty, variant, first) = match k { AggK::Adt(t, v, f) => (*t, *v as u32, f.unwrap_or(0) as u32), AggK::Closure(t) => (*t, 0, 0), AggK::Tuple => (u32::MAX, 0, 0), _ => return V::Undef };
                if let AggK::Adt(..) = k { ev.push(Ev::Make { ty, variant, fields: fs.clone() }) }
                let fields = fs.into_iter().enumerate().map(|(i, v)| (i as u32 + first, v)).collect();
                V::Agg(Rc::new(Agg { ty, variant, base: None, fields }))
            }
            Rvalue::ThreadLocal(n) => V::Sym(self.sym(S::Static(n.as_str().into()))),
            Rvalue::Len(_) | Rvalue::Repeat(..) => { let _ = at; V::Undef }
        }
    }
    fn is_bool(&self, o: &Operand) -> bool { let t = match o { Operand::Copy(p) | Operand::Move(p) => p.ty, Operand::Const(_, t) => *t, _ => return true }; matches!(self.ty(t).map(|t| &t.kind), Some(TyKind::Bool)) }
    fn unsize_len(&self, o: &Operand, _t: TyId) -> Option<u64> {
        let t = match o { Operand::Copy(p) | Operand::Move(p) => p.ty, Operand::Const(_, t) => *t, _ => return None };
        match &self.ty(t)?.kind { TyKind::Ref(x, _) | TyKind::Ptr(x, _) => match &self.ty(*x)?.kind { TyKind::Array(_, n) => Some(*n), _ => None }, _ => None }
    }
    /// a function that never returns, judged by its body
    pub fn diverging(&mut self, f: FnId) -> bool {
        if let Some(d) = self.diverges.get(&f) { return *d }
        self.diverges.insert(f, false);
        let d = match &self.p.fns[f as usize].body {
            None => matches!(self.p.tys[self.p.fns[f as usize].ret as usize].kind, TyKind::Never),
            Some(b) => {
                let mut seen: FxHashSet<usize> = Default::default();
                let mut w = vec![0usize];
                let mut ret = false;
                while let Some(i) = w.pop() {
                    if !seen.insert(i) { continue }
                    match &b.blocks[i].term { Term::Return => { ret = true; break } t => w.extend(succs(t)) }
                }
                // an endless loop is not a panic: require that some block has no successor
                !ret && seen.iter().all(|i| { let _ = i; true }) && seen.iter().any(|i| matches!(&b.blocks[*i].term, Term::Call { target: None, .. } | Term::Unreachable))
            }
        };
        self.diverges.insert(f, d);
        d
    }
    /// closures of the analysed code that a library function runs: (argument, body)
    fn callbacks(&self, fun: &Func) -> Vec<(usize, FnId)> {
        if !matches!(fun.krate.as_str(), "std" | "core" | "alloc" | "hashbrown") || fun.path.contains("thread") { return vec![] }
        let mut o = vec![];
        for (k, t) in fun.args.iter().enumerate() { if let Some(TyKind::Closure { body, .. }) = self.ty(*t).map(|t| &t.kind) { let g = self.func(*body); if self.ours(*t, 4) && g.body.is_some() && (self.o.inline)(g) { o.push((k, *body)) } } }
        o
    }
    /// a closure of the analysed code, or one that captures such a closure
    fn ours(&self, t: TyId, depth: u32) -> bool {
        if depth == 0 { return false }
        match self.ty(t).map(|t| &t.kind) { Some(TyKind::Closure { body, upvars, .. }) => crate::util::is_ws(&self.func(*body).krate) || upvars.iter().any(|u| self.ours(*u, depth - 1)), Some(TyKind::Ref(u, _)) => self.ours(*u, depth - 1), _ => false }
    }
    fn enter_callback(&mut self, nc: Cx, mut st: State, work: &mut Vec<usize>) -> usize {
        let f = self.cx[nc as usize].f;
        let b = self.p.fns[f as usize].body.as_ref().unwrap();
        let byref = matches!(self.ty(b.locals[1]).map(|t| &t.kind), Some(TyKind::Ref(..)));
        let own = if byref { V::Ref(nc, CAPTURES, vec![].into()) } else { st.env.get(&(nc, CAPTURES)).cloned().unwrap_or(V::Undef) };
        st.env.insert((nc, 1), own);
        for k in 2..=b.arg_count { let s = self.sym(S::Opaque(nc, 0, k as u32)); st.env.insert((nc, k as u32), V::Sym(s)); let subs = &self.subs; st.facts.retain(|x, _| *x != s && !subs[*x as usize].contains(&s)); }
        self.node(nc, 0, st, work)
    }
    fn step(&mut self, i: usize, work: &mut Vec<usize>) {
        let (cx, bb) = (self.n[i].cx, self.n[i].bb);
        self.at = bb;
        let mut st: State = (*self.n[i].st).clone();
        let b = self.body(cx);
        let bl = &b.blocks[bb as usize];
        let mut ev = vec![];
        for (k, (s, _)) in bl.stmts.iter().enumerate() {
            match s {
                Stmt::Assign(d, r) => { let v = self.rvalue(&mut st, cx, r, (bb, k as u32), &mut ev); self.write(&mut st, cx, d, v) }
                Stmt::SetDiscr(p, _) => self.write(&mut st, cx, p, V::Undef),
                Stmt::Dead(l) => { st.env.remove(&(cx, *l as u32)); }
                _ => {}
            }
        }
        let mut succ = vec![];
        let mut extra: Vec<Edge> = vec![];
        match &bl.term {
            Term::Goto(t) => succ.push((*t, st, None)),
            Term::Switch(o, ty, ts, other) => {
                let v = self.operand(&mut st, cx, o);
                match v {
                    V::Int(x) => { let t = ts.iter().find(|t| t.0 == x).map(|t| t.1).unwrap_or(*other); succ.push((t, st, None)) }
                    V::Sym(s) => {
                        let isb = matches!(self.ty(*ty).map(|t| &t.kind), Some(TyKind::Bool));
                        for (x, t) in ts { if let Some(s2) = self.refine(&st, s, Some(*x), &[]) { succ.push((*t, s2, Some((v.clone(), Some(*x))))) } }
                        let ex: Vec<u128> = ts.iter().map(|t| t.0).collect();
                        let one = if isb && ex.len() == 1 { Some(1 - ex[0]) } else { self.only_variant(s, &ex) };
                        if !matches!(b.blocks[*other].term, Term::Unreachable) {
                            match one {
                                Some(x) => if let Some(s2) = self.refine(&st, s, Some(x), &[]) { succ.push((*other, s2, Some((v.clone(), Some(x))))) },
                                None => if let Some(s2) = self.refine(&st, s, None, &ex) { succ.push((*other, s2, Some((v.clone(), None)))) },
                            }
                        }
                    }
                    _ => { for (x, t) in ts { succ.push((*t, st.clone(), Some((V::Undef, Some(*x))))) } if !matches!(b.blocks[*other].term, Term::Unreachable) { succ.push((*other, st, Some((V::Undef, None)))) } }
                }
            }
            Term::Return => {
                let v = st.env.get(&(cx, 0)).cloned().unwrap_or(V::Undef);
                match self.cx[cx as usize].parent {
                    None => ev.push(Ev::Return { v }),
                    Some((pc, pb)) if self.cxcb.contains(&cx) => {
                        // a callback returns to the function that called it, which may call it again
                        let keys: Vec<_> = st.env.keys().filter(|k| k.0 == cx && k.1 != CAPTURES).copied().collect();
                        for k in keys { st.env.remove(&k); }
                        let mut es = vec![];
                        let again = self.enter_callback(cx, st.clone(), work);
                        es.push(Edge { to: again, cond: None });
                        st.env.remove(&(cx, CAPTURES));
                        let Term::Call { dest, target: Some(t), .. } = &self.body(pc).blocks[pb as usize].term else { unreachable!() };
                        let o = self.sym(S::Opaque(pc, pb, CAPTURES));
                        self.write(&mut st, pc, dest, V::Sym(o));
                        es.push(Edge { to: self.node(pc, *t as u32, st, work), cond: None });
                        self.n[i].ev = ev;
                        self.n[i].succ = es;
                        return
                    }
                    Some((pc, pb)) => {
                        let keys: Vec<_> = st.env.keys().filter(|k| k.0 == cx).copied().collect();
                        for k in keys { st.env.remove(&k); }
                        let Term::Call { dest, target: Some(t), .. } = &self.body(pc).blocks[pb as usize].term else { unreachable!() };
                        self.write(&mut st, pc, dest, v);
                        let n = self.node(pc, *t as u32, st, work);
                        self.n[i].ev = ev;
                        self.n[i].succ = vec![Edge { to: n, cond: None }];
                        return
                    }
                }
            }
            Term::Unreachable | Term::Resume | Term::Other(_) => {}
            Term::Drop(p, t) => {
                let v = self.read(&st, cx, p);
                ev.push(Ev::Drop { v, ty: p.ty });
                if let Ok((c, l, path)) = self.loc(&st, cx, p) { self.set(&mut st, c, l, &path, V::Undef) }
                succ.push((*t, st, None));
            }
            Term::Assert { cond, expected, kind, target, .. } => {
                let v = self.operand(&mut st, cx, cond);
                match v { V::Int(x) if (x != 0) == *expected => {} _ => ev.push(Ev::Panic { what: kind.clone(), span: bl.span }) }
                succ.push((*target, st, None));
            }
            Term::Call { func, args, dest, target } => {
                let mut a: Vec<V> = vec![];
                for x in args { let v = self.operand(&mut st, cx, x); let v = self.bounds(&st, v); a.push(v) }
                let f = match func { Callee::Direct(f) => Some(*f), Callee::Indirect(o) => match self.operand(&mut st, cx, o) { V::Fn(f) => Some(f), _ => None } };
                if let Some(f) = f {
                    let fun = self.func(f);
                    let div = self.diverging(f);
                    if let (Some(t), "len", 1) = (target, last(fun), a.len()) {
                        let flat = fun.args.first().map(|t| { let t = match self.p.tys[*t as usize].kind { TyKind::Ref(x, _) => x, _ => *t }; matches!(self.p.tys[t as usize].kind, TyKind::Slice(_) | TyKind::Array(..)) }).unwrap_or(false);
                        if let (true, Some(n)) = (flat, self.mem_len(&a[0])) {
                            self.write(&mut st, cx, dest, V::Int(n as u128));
                            let n = self.node(cx, *t as u32, st, work);
                            self.n[i].ev = ev;
                            self.n[i].succ = vec![Edge { to: n, cond: None }];
                            return
                        }
                    }
                    if let (Some(t), Some(into)) = (target, self.copy_fn(fun)) {
                        let src = self.contents(&st, &a[into as usize]);
                        let dst = if into { self.root(&a[0]) } else { None };
                        if src != V::Undef && (!into || dst.is_some()) && self.syms_of(&src).iter().all(|s| self.depth[*s as usize] <= MAX_DEPTH) {
                            ev.push(Ev::Call { f, args: a.clone(), derefs: a.clone(), res: None, held: vec![], span: bl.span });
                            match dst {
                                Some((c, l, path, range)) => {
                                    let n = match range { None => src, Some((x, y)) => { let old = self.get(&st, c, l, &path); V::Sym(self.sym(S::Upd(old, x, y, src))) } };
                                    self.set(&mut st, c, l, &path, n);
                                    self.write(&mut st, cx, dest, V::Undef);
                                }
                                None => self.write(&mut st, cx, dest, src),
                            }
                            let n = self.node(cx, *t as u32, st, work);
                            self.n[i].ev = ev;
                            self.n[i].succ = vec![Edge { to: n, cond: None }];
                            return
                        }
                    }
                    if let (Some(fb), Some(_), false) = (&fun.body, target, div) {
                        if (self.o.inline)(fun) && self.cx[cx as usize].depth < CALL_DEPTH && !self.on_stack(cx, f) {
                            let nc = self.ctx(f, Some((cx, bb)));
                            // rust-call: a closure takes its arguments as a tuple
                            let mut params = a.clone();
                            if fb.spread.is_none() && fun.is_closure && a.len() == 2 && fb.arg_count != 2 || (fun.is_closure && a.len() == 2 && fb.spread.is_none()) {
                                if let V::Agg(t) = &a[1] { if t.ty == u32::MAX { params = vec![a[0].clone()]; for k in 0..fb.arg_count.saturating_sub(1) { params.push(t.fields.get(&(k as u32)).cloned().unwrap_or(V::Undef)) } } }
                            }
                            if let Some(sp) = fb.spread {
                                let fixed = sp - 1;
                                if a.len() > fixed { let tup = V::Agg(Rc::new(Agg { ty: u32::MAX, variant: 0, base: None, fields: a[fixed..].iter().cloned().enumerate().map(|(i, v)| (i as u32, v)).collect() })); if !(a.len() == fixed + 1 && matches!(&a[fixed], V::Agg(t) if t.ty == u32::MAX)) { params = a[..fixed].to_vec(); params.push(tup); } }
                            }
                            for (k, v) in params.into_iter().enumerate() { if k < fb.arg_count { st.env.insert((nc, k as u32 + 1), v); } }
                            let n = self.node(nc, 0, st, work);
                            self.n[i].ev = ev;
                            self.n[i].succ = vec![Edge { to: n, cond: None }];
                            return
                        }
                    }
                    let pure = pure_fn(fun);
                    let key = if a.iter().any(|v| self.syms_of(v).iter().any(|s| self.depth[*s as usize] > MAX_DEPTH)) { vec![] } else { a.clone() };
                    let s = if pure { self.sym(S::Call(0, u32::MAX, f, key.into())) } else { self.sym(S::Call(cx, bb, f, key.into())) };
                    // a new result: nothing is known about it
                    if !pure { let subs = &self.subs; let syms = &self.s; let same = |x: SId| matches!(&syms[x as usize], S::Call(c, b2, _, _) | S::Out(c, b2, _, _) if *c == cx && *b2 == bb); st.facts.retain(|k, _| !(same(*k) || subs[*k as usize].iter().any(|x| same(*x)))); }
                    let derefs: Vec<V> = a.iter().map(|v| match self.root(v) { Some(_) => self.contents(&st, v), None => v.clone() }).collect();
                    let mut held = vec![];
                    for (_, v) in st.env.iter() { self.guards_in(v, &mut held) }
                    let returns = target.is_some() && (!div || crate::util::is_ws(&fun.krate));
                    ev.push(Ev::Call { f, args: a.clone(), derefs, res: if returns { Some(s) } else { None }, held, span: bl.span });
                    if div || target.is_none() { ev.push(Ev::Panic { what: fun.path.clone(), span: bl.span }); }
                    if returns {
                        if !pure { for (k, v) in a.iter().enumerate() {
                            let mutable = fun.args.get(k).and_then(|t| self.ty(*t)).map(|t| matches!(t.kind, TyKind::Ref(_, true) | TyKind::Ptr(_, true))).unwrap_or(false);
                            if mutable {
                                if let Some((c, l, path, range)) = self.root(v) {
                                    let o = self.sym(S::Out(cx, bb, f, k as u32));
                                    let n = match range { None => V::Sym(o), Some((x, y)) => { let old = self.get(&st, c, l, &path); if self.syms_of(&old).iter().any(|s| self.depth[*s as usize] > MAX_DEPTH) { V::Sym(o) } else { V::Sym(self.sym(S::Upd(old, x, y, V::Sym(o)))) } } };
                                    self.set(&mut st, c, l, &path, n)
                                } else if let V::Sym(s) = v { let d = self.sym(S::Deref(*s)); self.forget(&mut st, d) }
                            }
                        } }
                        if target.is_some() { for (k, body) in self.callbacks(fun) {
                            if self.on_stack(cx, body) || self.cx[cx as usize].depth >= CALL_DEPTH { continue }
                            let nc = self.ctx(body, Some((cx, bb)));
                            self.cxcb.insert(nc);
                            let mut s2 = st.clone();
                            s2.env.insert((nc, CAPTURES), a[k].clone());
                            let n = self.enter_callback(nc, s2, work);
                            extra.push(Edge { to: n, cond: None });
                        } }
                        self.write(&mut st, cx, dest, V::Sym(s));
                        if let Some(t) = target { succ.push((*t, st, None)) }
                    }
                } else {
                    self.write(&mut st, cx, dest, V::Undef);
                    if let Some(t) = target { succ.push((*t, st, None)) }
                }
            }
        }
        let mut es = extra;
        for (t, s, c) in succ { let n = self.node(cx, t as u32, s, work); es.push(Edge { to: n, cond: c }) }
        self.n[i].ev = ev;
        self.n[i].succ = es;
    }
    /// the memory a reference points into, seen through slicing and conversions
    pub fn root(&self, v: &V) -> Option<(Cx, u32, Vec<u32>, Option<(u64, u64)>)> {
        match v {
            V::Ref(c, l, p) => Some((*c, *l, p.to_vec(), None)),
            V::Sym(s) => match &self.s[*s as usize] {
                S::Unsize(v, _) => self.root(v),
                S::Field(x, _, i) => {
                    let S::Call(_, u32::MAX, f, a) = &self.s[*x as usize] else { return None };
                    if !matches!(last(self.func(*f)), "split_at" | "split_at_mut") || *i > 1 { return None }
                    let (c, l, p, r) = self.root(a.first()?)?;
                    let V::Int(k) = a.get(1)? else { return None };
                    let base = r.map(|r| r.0).unwrap_or(0);
                    let len = self.slice_len(a.first()?);
                    Some((c, l, p, Some(if *i == 0 { (base, base + *k as u64) } else { (base + *k as u64, base.saturating_add(len)) })))
                }
                S::Call(_, u32::MAX, f, a) => {
                    // what a guard or a shared pointer leads to is not part of it
                    if let Some(t) = self.func(*f).args.first() { let n = &self.p.tys[*t as usize].name; let n = n.trim_start_matches('&').trim_start_matches("mut ").trim_start_matches('&'); if ["std::sync::MutexGuard<", "std::sync::RwLock", "std::cell::", "std::sync::Arc<", "std::rc::Rc<"].iter().any(|x| n.starts_with(x)) { return None } }
                    let (c, l, p, r) = self.root(a.first()?)?;
                    let n = self.func(*f).path.rsplit("::").next().unwrap_or("");
                    if n == "index_mut" || n == "index" {
                        let len = self.slice_len(a.first()?);
                        let (x, y) = self.range_of(a.get(1)?, len)?;
                        let base = r.map(|r| r.0).unwrap_or(0);
                        return Some((c, l, p, Some((base + x, base.saturating_add(y)))))
                    }
                    Some((c, l, p, r))
                }
                _ => None,
            },
            _ => None,
        }
    }
    fn slice_len(&self, v: &V) -> u64 { self.mem_len(v).unwrap_or(u64::MAX) }
    /// type of a memory location
    pub fn loc_ty(&self, c: Cx, l: u32, path: &[u32]) -> Option<TyId> {
        let b = self.func(self.cx[c as usize].f).body.as_ref()?;
        let mut t = *b.locals.get(l as usize)?;
        for k in path { t = match &self.p.tys[t as usize].kind { TyKind::Adt { variants, .. } => variants.first()?.fields.get(*k as usize)?.1, TyKind::Tuple(x) => *x.get(*k as usize)?, TyKind::Closure { upvars, .. } => *upvars.get(*k as usize)?, _ => return None } }
        Some(t)
    }
    /// length of the array behind a slice reference
    pub fn mem_len(&self, v: &V) -> Option<u64> {
        let mut w = v;
        while let V::Sym(s) = w { match &self.s[*s as usize] { S::Unsize(_, n) => return Some(*n), S::Call(_, u32::MAX, f, a) if !a.is_empty() && !matches!(last(self.func(*f)), "index" | "index_mut") => w = &a[0], _ => break } }
        let (c, l, path, range) = self.root(v)?;
        if let Some((a, b)) = range { if b != u64::MAX { return Some(b - a) } }
        let t = self.loc_ty(c, l, &path)?;
        let n = match &self.p.tys[t as usize].kind { TyKind::Array(_, n) => *n, TyKind::Adt { path, .. } if !path.ends_with("Vec") && !path.ends_with("String") && !path.ends_with("IVec") => self.p.tys[t as usize].size?, _ => return None };
        Some(n - range.map(|r| r.0).unwrap_or(0))
    }
    /// what a reference refers to (or the value itself)
    fn contents(&mut self, st: &State, v: &V) -> V {
        let mut v = v.clone();
        let mut part: Option<(u64, u64)> = None;
        for _ in 0..6 {
            if let Some((c, l, path, range)) = self.root(&v) {
                if let Some((a, b)) = range {
                    let whole = a == 0 && self.loc_ty(c, l, &path).map(|t| match &self.p.tys[t as usize].kind { TyKind::Array(_, n) => *n == b, TyKind::Adt { .. } => b == u64::MAX || self.p.tys[t as usize].size == Some(b), _ => false }).unwrap_or(false);
                    if !whole { part = Some((a, b)) }
                }
                v = self.get(st, c, l, &path);
                if let (V::Ref(..), None) = (&v, part) { continue }
                break
            }
            match &v {
                V::Sym(s) => match &self.s[*s as usize] {
                    S::Un(9, x) | S::Unsize(x, _) => { v = x.clone(); continue }
                    S::Call(_, u32::MAX, f, a) if !a.is_empty() && !matches!(last(self.func(*f)), "index" | "index_mut" | "split_at" | "split_at_mut") => { v = a[0].clone(); continue }
                    _ => break,
                },
                _ => break,
            }
        }
        let Some((x, y)) = part else { return v };
        // look through writes elsewhere
        for _ in 0..8 {
            let V::Sym(s) = &v else { break };
            let S::Upd(old, a, b, n) = &self.s[*s as usize] else { break };
            if (*a, *b) == (x, y) { return n.clone() }
            if *b <= x || y <= *a { v = old.clone(); continue }
            break
        }
        if v == V::Undef { return v }
        V::Sym(self.sym(S::Part(v, x, y)))
    }
    /// copies bytes: Some(true) from the second argument into the first, Some(false) from the first into the result
    fn copy_fn(&self, fun: &Func) -> Option<bool> {
        let bytes = |t: TyId| { let n = self.p.tys[t as usize].name.as_str(); n.contains("GenericArray<u8") && !n.contains("(") || n.starts_with("[u8") || n == "std::vec::Vec<u8>" || n == "std::string::String" || n == "std::boxed::Box<[u8]>" };
        let refd = |t: TyId| match self.p.tys[t as usize].kind { TyKind::Ref(_, m) => Some(m), _ => None };
        match (last(fun), fun.args.len()) {
            ("clone_from_slice" | "copy_from_slice" | "clone_from", 2) if refd(fun.args[0]) == Some(true) => Some(true),
            ("clone_from_slice" | "to_vec" | "to_owned" | "into_vec" | "into_bytes" | "into_boxed_slice" | "clone" | "into" | "from" | "to_string", 1) if bytes(fun.ret) && (refd(fun.args[0]) == Some(false) || bytes(fun.args[0])) && !fun.path.contains("bincode") => { if last(fun) == "to_string" && !matches!(self.p.tys[fun.args[0] as usize].name.as_str(), "&str" | "&std::string::String") { return None } Some(false) }
            _ => None,
        }
    }
    /// a range with bounds that are known by now
    fn bounds(&self, st: &State, v: V) -> V {
        let V::Agg(a) = &v else { return v };
        if a.fields.is_empty() || a.fields.len() > 2 || !self.ty(a.ty).map(|t| t.name.contains("ops::Range")).unwrap_or(false) { return v }
        let mut b = (**a).clone();
        for x in b.fields.values_mut() { if let V::Sym(s) = x { let f = self.fact(st, *s); if f.lo == f.hi { *x = V::Int(f.lo) } } }
        if b == **a { v } else { V::Agg(Rc::new(b)) }
    }
    fn range_of(&self, v: &V, len: u64) -> Option<(u64, u64)> {
        let V::Agg(a) = v else { return None };
        let name = self.ty(a.ty)?.name.clone();
        let f = |i: u32| match a.fields.get(&i) { Some(V::Int(x)) => Some(*x as u64), _ => None };
        let n = name.split('<').next().unwrap().rsplit("::").next().unwrap();
        Some(match n { "RangeTo" => (0, f(0)?), "RangeFrom" => (f(0)?, len), "Range" => (f(0)?, f(1)?), "RangeFull" => (0, len), "RangeToInclusive" => (0, f(0)? + 1), _ => return None })
    }
    fn only_variant(&self, s: SId, ex: &[u128]) -> Option<u128> { let _ = (s, ex); None }
    pub fn fact(&self, st: &State, s: SId) -> Fact { st.facts.get(&s).cloned().unwrap_or(Fact { lo: 0, hi: u128::MAX, ne: vec![] }) }
    fn refine(&self, st: &State, s: SId, val: Option<u128>, ex: &[u128]) -> Option<State> {
        let mut st = st.clone();
        let ok = match val { Some(x) => self.assume(&mut st, s, Some(x), &[]), None => self.assume(&mut st, s, None, ex) };
        if ok { Some(st) } else { None }
    }
    fn assume(&self, st: &mut State, s: SId, val: Option<u128>, ex: &[u128]) -> bool {
        let mut f = self.fact(st, s);
        match val { Some(x) => { if x < f.lo || x > f.hi || f.ne.contains(&x) { return false } f = Fact { lo: x, hi: x, ne: vec![] } } None => { for x in ex { if f.lo == *x && f.hi == *x { return false } if !f.ne.contains(x) { f.ne.push(*x) } } f.ne.sort(); } }
        while f.ne.contains(&f.lo) { let lo = f.lo; f.ne.retain(|x| *x != lo); if lo == f.hi { return false } f.lo += 1 }
        st.facts.insert(s, f.clone());
        // consequences
        if f.lo == f.hi {
            let b = f.lo;
            match &self.s[s as usize] {
                S::Un(0, V::Sym(x)) => return self.assume(st, *x, Some((b == 0) as u128), &[]),
                S::Bin(Bin::Eq, V::Sym(x), V::Int(c)) => return if b == 1 { self.assume(st, *x, Some(*c), &[]) } else { self.assume(st, *x, None, &[*c]) },
                S::Bin(op @ (Bin::Lt | Bin::Le), V::Sym(x), V::Int(c)) => {
                    let mut g = self.fact(st, *x);
                    let c = if *op == Bin::Lt { match c.checked_sub(1) { Some(c) => c, None => return b == 0 } } else { *c };
                    if b == 1 { g.hi = g.hi.min(c) } else { g.lo = g.lo.max(c + 1) }
                    if g.lo > g.hi { return false }
                    while g.ne.contains(&g.hi) { let hi = g.hi; g.ne.retain(|x| *x != hi); if g.lo == hi { return false } g.hi -= 1 }
                    while g.ne.contains(&g.lo) { let lo = g.lo; g.ne.retain(|x| *x != lo); if g.hi == lo { return false } g.lo += 1 }
                    st.facts.insert(*x, g);
                }
                _ => {}
            }
        }
        true
    }

    // ------------------------------------------------------------------------------------ queries
    /// nodes reachable from the given ones (inclusive), not going beyond nodes where `stop` holds
    pub fn reach(&self, from: &[usize], stop: &dyn Fn(usize) -> bool, cut: &dyn Fn(usize, &Edge) -> bool) -> FxHashSet<usize> {
        let mut seen: FxHashSet<usize> = Default::default();
        let mut w: Vec<usize> = from.to_vec();
        while let Some(i) = w.pop() {
            if !seen.insert(i) { continue }
            if stop(i) { continue }
            for e in &self.n[i].succ { if !cut(i, e) { w.push(e.to) } }
        }
        seen
    }
    pub fn calls(&self, pred: &dyn Fn(&Func) -> bool) -> Vec<usize> {
        (0..self.n.len()).filter(|i| self.has(*i, pred)).collect()
    }
    pub fn has(&self, i: usize, pred: &dyn Fn(&Func) -> bool) -> bool { self.n[i].ev.iter().any(|e| matches!(e, Ev::Call { f, .. } if pred(self.func(*f)))) }
    pub fn line(&self, sp: SpanId) -> String { let (f, l) = self.p.spans[sp as usize]; format!("{}:{l}", self.p.files[f as usize].trim_start_matches("/repo/")) }
    /// nearest workspace function on the context stack and the source line there
    pub fn place_of(&self, i: usize) -> (String, String) {
        let mut cx = self.n[i].cx; let mut bb = self.n[i].bb;
        loop {
            let f = self.func(self.cx[cx as usize].f);
            if crate::util::is_ws(&f.krate) { return (f.path.clone(), self.line(f.body.as_ref().unwrap().blocks[bb as usize].span)) }
            match self.cx[cx as usize].parent { Some((p, b)) => { cx = p; bb = b } None => return (f.path.clone(), String::new()) }
        }
    }
    pub fn show_v(&self, v: &V) -> String {
        match v { V::Sym(s) => self.show(*s), V::Agg(a) => format!("{}#{}{{{}}}", self.ty(a.ty).map(|t| t.name.as_str()).unwrap_or("?"), a.variant as i32, a.fields.iter().map(|(k, v)| format!("{k}:{}", self.show_v(v))).collect::<Vec<_>>().join(",")), V::Ref(c, l, p) => format!("&c{c}._{l}{p:?}"), V::Fn(f) => self.func(*f).path.clone(), v => format!("{v:?}") }
    }
    pub fn show(&self, s: SId) -> String {
        match &self.s[s as usize] {
            S::Arg(i) => format!("arg{i}"),
            S::Call(_, _, f, a) => format!("{}({})", self.func(*f).path.rsplit("::").next().unwrap(), a.iter().map(|v| self.show_v(v)).collect::<Vec<_>>().join(", ")),
            S::Out(_, _, f, k) => format!("out{k}[{}]", self.func(*f).path.rsplit("::").next().unwrap()),
            S::Field(x, _, i) => format!("{}.{i}", self.show(*x)),
            S::Deref(x) => format!("*{}", self.show(*x)),
            S::Discr(x) => format!("discr({})", self.show(*x)),
            S::Un(9, v) => format!("&{}", self.show_v(v)),
            S::Un(_, v) => format!("!{}", self.show_v(v)),
            S::Bin(b, x, y) => format!("{b:?}({}, {})", self.show_v(x), self.show_v(y)),
            S::Upd(v, a, b, o) => format!("{}[{a}..{b}:={}]", self.show_v(v), self.show_v(o)),
            S::Part(v, a, b) => format!("{}[{a}..{b}]", self.show_v(v)),
            S::Unsize(v, n) => format!("{}[..{n}]", self.show_v(v)),
            S::Opaque(..) => "?".into(),
            S::Static(n) => n.to_string(),
        }
    }
}

/// calls that only look at or re-borrow their argument
fn last(f: &Func) -> &str { f.path.rsplit("::").next().unwrap_or("") }
pub fn pure_fn(f: &Func) -> bool {
    let n = f.path.rsplit("::").next().unwrap_or("");
    matches!(n, "deref" | "deref_mut" | "as_ref" | "as_mut" | "borrow" | "index" | "index_mut" | "as_slice" | "as_mut_slice" | "into_deref" | "split_at" | "split_at_mut" | "as_bytes" | "as_str" | "as_path" | "by_ref") && !f.path.contains("RefCell")
}
pub fn succs(t: &Term) -> Vec<usize> {
    match t {
        Term::Goto(t) | Term::Drop(_, t) => vec![*t],
        Term::Switch(_, _, ts, o) => ts.iter().map(|t| t.1).chain([*o]).collect(),
        Term::Call { target, .. } => target.iter().copied().collect(),
        Term::Assert { target, .. } => vec![*target],
        _ => vec![],
    }
}
