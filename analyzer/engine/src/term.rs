//! Hash-consed value terms: global value numbering over an abstract domain with unsigned intervals, bit
//! slices, small finite-domain tables and taint.
use fxhash::FxHashMap;
use std::rc::Rc;

pub type T = u32;
pub const NONE: T = u32::MAX;
/// largest domain represented by an explicit table
const SMALL: u128 = 8192;
/// largest domain tabulated to find a range or a truth set
const MEDIUM: u128 = 65536;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Op { Add, Sub, Mul, Div, Rem, And, Or, Xor, Shl, Shr, Sar }

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Sl { pub src: T, pub lo: u16, pub len: u16 }

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum K {
    Const(u128),
    Atom(u32),
    Bin(Op, T, T),
    Cat(Rc<[Sl]>),
    Tab(T, u32),
    Ite(T, T, T),
    And(Rc<[T]>),
    Not(T),
    Eq(T, T),
    Lt(T, T),
    App(u32, Rc<[T]>),
    /// component i of an opaque term
    Sel(T, u32),
    /// c0 + sum c_i * t_i modulo 2^64
    Lin(u128, Rc<[(u128, T)]>),
    /// sign extension of a term to the node's width
    Sext(T),
}
pub struct Node { pub k: K, pub w: u16, pub lo: u128, pub hi: u128, pub up: T, pub sr: T, pub taint: u64 }

pub struct Terms {
    pub n: Vec<Node>,
    ix: FxHashMap<(K, u16), T>,
    pub names: Vec<String>,
    name_ix: FxHashMap<String, u32>,
    tabs: Vec<Rc<Vec<u64>>>,
    tab_ix: FxHashMap<Rc<Vec<u64>>, u32>,
    tabop: FxHashMap<(Op, u16, u64, u64), u32>,
    tabof: FxHashMap<(T, T), u32>,
    tabslice: FxHashMap<(u32, u128), Option<(u16, u16, u16)>>,
    rcache: FxHashMap<(u128, u128, u128), (u128, u128)>,
    tcache: FxHashMap<(u128, u128, u128), Truth>,
    pub declassify: Option<Box<dyn Fn(&Terms, T, u32) -> bool>>,
    pub facts_eq: FxHashMap<T, T>,
}
#[derive(Clone, Copy, Debug)]
enum Truth { All, No, Point(u128), NotPoint(u128), Prefix(u128), Suffix(u128), Mixed }

pub fn mask(w: u16) -> u128 { if w >= 128 { u128::MAX } else { (1u128 << w) - 1 } }
pub fn bits(x: u128) -> u16 { (128 - x.leading_zeros()) as u16 }
fn sext128(v: u128, w: u16) -> i128 { if w == 0 || w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) } }

pub fn eval_bin(op: Op, w: u16, a: u128, b: u128) -> Option<u128> {
    let m = mask(w);
    Some(match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::Div => { if b == 0 { return None } a / b }
        Op::Rem => { if b == 0 { return None } a % b }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => if b >= w as u128 { 0 } else { (a << b) & m },
        Op::Shr => if b >= w as u128 { 0 } else { a >> b },
        Op::Sar => { let s = b.min(w as u128 - 1); (sext128(a, w) >> s) as u128 & m }
    })
}

impl Terms {
    pub fn new() -> Self {
        let mut t = Terms { n: vec![], ix: Default::default(), names: vec![], name_ix: Default::default(), tabs: vec![], tab_ix: Default::default(), tabop: Default::default(), tabof: Default::default(), tabslice: Default::default(), rcache: Default::default(), tcache: Default::default(), declassify: None, facts_eq: Default::default() };
        t.konst(0, 1);
        t.konst(1, 1);
        t
    }
    pub const FALSE: T = 0;
    pub const TRUE: T = 1;
    pub fn sym(&mut self, s: &str) -> u32 {
        if let Some(i) = self.name_ix.get(s) { return *i }
        let i = self.names.len() as u32;
        self.names.push(s.to_string());
        self.name_ix.insert(s.to_string(), i);
        i
    }
    fn raw(&mut self, k: K, w: u16, lo: u128, hi: u128, up: T, taint: u64) -> T {
        let key = (k, w);
        if let Some(i) = self.ix.get(&key) { return if self.facts_eq.is_empty() { *i } else { *self.facts_eq.get(i).unwrap_or(i) } }
        let i = self.n.len() as T;
        let is_const = matches!(key.0, K::Const(_));
        let sr = match &key.0 {
            K::Const(_) => NONE,
            K::Tab(r, _) => *r,
            _ => {
                let us = if up != NONE { self.n[up as usize].sr } else { NONE };
                if us != NONE { us } else if w > 1 && hi < SMALL { i } else { NONE }
            }
        };
        let _ = is_const;
        self.n.push(Node { k: key.0.clone(), w, lo, hi, up, sr, taint });
        self.ix.insert(key, i);
        i
    }
    pub fn konst(&mut self, v: u128, w: u16) -> T { let v = v & mask(w); self.raw(K::Const(v), w, v, v, NONE, 0) }
    pub fn b(&self, v: bool) -> T { if v { Self::TRUE } else { Self::FALSE } }
    pub fn atom(&mut self, name: &str, w: u16, lo: u128, hi: u128, taint: u64) -> T { let s = self.sym(name); self.raw(K::Atom(s), w, lo, hi.min(mask(w)), NONE, taint) }
    pub fn app(&mut self, f: &str, args: &[T]) -> T {
        let s = self.sym(f);
        let t = args.iter().fold(0, |a, x| a | self.n[*x as usize].taint);
        self.raw(K::App(s, args.into()), 0, 0, 0, NONE, t)
    }
    pub fn sel(&mut self, a: T, i: u32, w: u16) -> T { self.sel_r(a, i, w, 0, if w == 0 { 0 } else { mask(w) }) }
    pub fn sel_r(&mut self, a: T, i: u32, w: u16, lo: u128, hi: u128) -> T {
        let mut t = self.n[a as usize].taint;
        if t != 0 { if let Some(d) = self.declassify.take() { if d(self, a, i) { t = 0 } self.declassify = Some(d); } }
        if w == 0 {
            // opaque component: distribute over joins
            if let K::Ite(c, x, y) = self.n[a as usize].k { let (x, y) = (self.sel(x, i, 0), self.sel(y, i, 0)); return self.ite(c, x, y) }
        } else if let K::Ite(c, x, y) = self.n[a as usize].k { let (x, y) = (self.sel_r(x, i, w, lo, hi), self.sel_r(y, i, w, lo, hi)); return self.ite(c, x, y) }
        self.raw(K::Sel(a, i), w, lo, hi, NONE, t)
    }
    pub fn k(&self, t: T) -> &K { &self.n[t as usize].k }
    pub fn w(&self, t: T) -> u16 { self.n[t as usize].w }
    pub fn table(&self, i: u32) -> &[u64] { &self.tabs[i as usize] }
    pub fn c(&self, t: T) -> Option<u128> { if let K::Const(v) = self.n[t as usize].k { Some(v) } else { None } }
    pub fn range(&self, t: T) -> (u128, u128) { let n = &self.n[t as usize]; (n.lo, n.hi) }
    pub fn taint(&self, t: T) -> u64 { self.n[t as usize].taint }
    pub fn app_name(&self, t: T) -> Option<(&str, &[T])> { if let K::App(s, a) = &self.n[t as usize].k { Some((&self.names[*s as usize], a)) } else { None } }
    pub fn sr(&self, t: T) -> T { self.n[t as usize].sr }

    // ---------------------------------------------------------------- unary roots
    pub fn chain(&self, t: T) -> Vec<T> {
        let mut v = vec![]; let mut x = t;
        while x != NONE && v.len() < 24 { v.push(x); x = self.n[x as usize].up; }
        v
    }
    fn common_up(&self, xs: &[T]) -> T {
        let mut cand: Option<Vec<T>> = None;
        for &x in xs {
            if self.c(x).is_some() { continue }
            let ch = self.chain(x);
            cand = Some(match cand { None => ch, Some(c) => c.into_iter().filter(|y| ch.contains(y)).collect() });
            if cand.as_ref().unwrap().is_empty() { return NONE }
        }
        cand.and_then(|c| c.first().copied()).unwrap_or(NONE)
    }
    /// value of `x` as a function of `root`
    pub fn eval_at(&self, x: T, root: T, v: u128, memo: &mut FxHashMap<T, u128>) -> Option<u128> {
        if x == root { return Some(v) }
        if let K::Const(c) = self.n[x as usize].k { return Some(c) }
        if let Some(r) = memo.get(&x) { return Some(*r) }
        let w = self.n[x as usize].w;
        let r = match &self.n[x as usize].k {
            K::Bin(op, a, b) => { let a = self.eval_at(*a, root, v, memo)?; let b = self.eval_at(*b, root, v, memo)?; eval_bin(*op, w, a, b)? }
            K::Cat(s) => {
                let mut r = 0u128; let mut pos = 0;
                for sl in s.iter() { let a = self.eval_at(sl.src, root, v, memo)?; r |= ((a >> sl.lo) & mask(sl.len)) << pos; pos += sl.len; }
                r & mask(w)
            }
            K::Tab(r, t) => { let a = self.eval_at(*r, root, v, memo)?; *self.tabs[*t as usize].get(a as usize)? as u128 }
            K::Ite(c, a, b) => { let c = self.eval_at(*c, root, v, memo)?; if c != 0 { self.eval_at(*a, root, v, memo)? } else { self.eval_at(*b, root, v, memo)? } }
            K::And(xs) => { let mut r = 1; for x in xs.iter() { r &= self.eval_at(*x, root, v, memo)?; } r }
            K::Not(a) => 1 ^ self.eval_at(*a, root, v, memo)?,
            K::Eq(a, b) => (self.eval_at(*a, root, v, memo)? == self.eval_at(*b, root, v, memo)?) as u128,
            K::Lt(a, b) => (self.eval_at(*a, root, v, memo)? < self.eval_at(*b, root, v, memo)?) as u128,
            K::Lin(c, xs) => { let mut r = *c; for (k, x) in xs.iter() { r = r.wrapping_add(k.wrapping_mul(self.eval_at(*x, root, v, memo)?)); } r & mask(w) }
            K::Sext(a) => { let aw = self.w(*a); sext128(self.eval_at(*a, root, v, memo)?, aw) as u128 & mask(w) }
            _ => return None,
        };
        memo.insert(x, r);
        Some(r)
    }
    pub fn shape(&self, x: T, root: T, memo: &mut FxHashMap<T, u128>) -> u128 {
        if x == root { return 0x9e3779b97f4a7c15f39cc0605cedc834 }
        if let Some(r) = memo.get(&x) { return *r }
        let mix = |h: u128, v: u128| (h ^ v).wrapping_mul(0x2d358dccaa6c78a58bb84b93962eacc9).rotate_left(41) ^ v.wrapping_mul(0x9e3779b97f4a7c15);
        let n = &self.n[x as usize];
        let h0 = n.w as u128 + 77;
        let r = match &n.k {
            K::Const(c) => mix(mix(h0, 1), *c),
            K::Bin(op, a, b) => mix(mix(mix(mix(h0, 2), *op as u128), self.shape(*a, root, memo)), self.shape(*b, root, memo)),
            K::Cat(s) => { let mut h = mix(h0, 3); for sl in s.iter() { h = mix(mix(h, (sl.lo as u128) << 16 | sl.len as u128), self.shape(sl.src, root, memo)); } h }
            K::Tab(r, t) => mix(mix(mix(h0, 4), *t as u128), self.shape(*r, root, memo)),
            K::Ite(c, a, b) => mix(mix(mix(mix(h0, 5), self.shape(*c, root, memo)), self.shape(*a, root, memo)), self.shape(*b, root, memo)),
            K::And(xs) => { let mut hs: Vec<u128> = xs.iter().map(|y| self.shape(*y, root, memo)).collect(); hs.sort(); hs.into_iter().fold(mix(h0, 6), mix) }
            K::Not(a) => mix(mix(h0, 7), self.shape(*a, root, memo)),
            K::Eq(a, b) => { let (a, b) = (self.shape(*a, root, memo), self.shape(*b, root, memo)); mix(mix(mix(h0, 8), a.min(b)), a.max(b)) }
            K::Lt(a, b) => mix(mix(mix(h0, 9), self.shape(*a, root, memo)), self.shape(*b, root, memo)),
            K::Lin(c, xs) => { let mut h = mix(mix(h0, 10), *c); let mut v: Vec<(u128, u128)> = xs.iter().map(|(k, y)| (*k, self.shape(*y, root, memo))).collect(); v.sort(); for (k, y) in v { h = mix(mix(h, k), y); } h }
            K::Sext(a) => mix(mix(h0, 11), self.shape(*a, root, memo)),
            _ => mix(mix(h0, 12), x as u128),
        };
        memo.insert(x, r);
        r
    }
    /// nearest unary ancestor with a domain that can be tabulated
    fn med_root(&self, up: T) -> T {
        let mut u = up; let mut n = 0;
        while u != NONE && n < 24 { if self.n[u as usize].hi < MEDIUM { return u } u = self.n[u as usize].up; n += 1; }
        NONE
    }
    /// exact range of a (not yet interned) node that is a function of `root`
    fn tab_range(&mut self, x: T, root: T) -> Option<(u128, u128)> {
        let (lo, hi) = self.range(root);
        let sh = self.shape(x, root, &mut Default::default());
        if let Some(r) = self.rcache.get(&(sh, lo, hi)) { return Some(*r) }
        let mut mn = u128::MAX; let mut mx = 0;
        for v in lo..=hi { let r = self.eval_at(x, root, v, &mut Default::default())?; mn = mn.min(r); mx = mx.max(r); }
        self.rcache.insert((sh, lo, hi), (mn, mx));
        Some((mn, mx))
    }
    fn tab_truth(&mut self, x: T, root: T) -> Option<Truth> {
        let (lo, hi) = self.range(root);
        let sh = self.shape(x, root, &mut Default::default());
        if let Some(r) = self.tcache.get(&(sh, lo, hi)) { return Some(*r) }
        let mut flips = vec![]; let mut prev = None; let mut first = false; let mut nt = 0u128; let (mut lt, mut lf) = (0, 0);
        for v in lo..=hi {
            let r = self.eval_at(x, root, v, &mut Default::default())? != 0;
            if prev.is_none() { first = r; } else if prev != Some(r) { flips.push(v); }
            if r { nt += 1; lt = v } else { lf = v }
            prev = Some(r);
        }
        let total = hi - lo + 1;
        let r = if nt == total { Truth::All } else if nt == 0 { Truth::No }
            else if nt == 1 { Truth::Point(lt) } else if nt == total - 1 { Truth::NotPoint(lf) }
            else if flips.len() == 1 { if first { Truth::Prefix(flips[0]) } else { Truth::Suffix(flips[0]) } }
            else { Truth::Mixed };
        self.tcache.insert((sh, lo, hi), r);
        Some(r)
    }
    fn from_truth(&mut self, root: T, tr: Truth) -> Option<T> {
        let w = self.w(root);
        Some(match tr {
            Truth::All => Self::TRUE, Truth::No => Self::FALSE,
            Truth::Point(v) => { let c = self.konst(v, w); self.eq_raw(root, c) }
            Truth::NotPoint(v) => { let c = self.konst(v, w); let e = self.eq_raw(root, c); self.not(e) }
            Truth::Prefix(v) => { let c = self.konst(v, w); self.lt_raw(root, c) }
            Truth::Suffix(v) => { let c = self.konst(v, w); let e = self.lt_raw(root, c); self.not(e) }
            Truth::Mixed => return None,
        })
    }
    // ---------------------------------------------------------------- tables
    fn intern_tab(&mut self, v: Vec<u64>) -> u32 {
        if let Some(i) = self.tab_ix.get(&v) { return *i }
        let r = Rc::new(v); let i = self.tabs.len() as u32;
        self.tabs.push(r.clone()); self.tab_ix.insert(r, i); i
    }
    fn table_of(&mut self, x: T, root: T) -> Option<u32> {
        if let K::Tab(r, t) = self.n[x as usize].k { if r == root { return Some(t) } }
        if let Some(t) = self.tabof.get(&(x, root)) { return Some(*t) }
        let hi = self.n[root as usize].hi;
        let mut v = Vec::with_capacity(hi as usize + 1);
        if x == root { v.extend(0..=hi as u64) } else { for i in 0..=hi { v.push(self.eval_at(x, root, i, &mut Default::default())? as u64); } }
        let t = self.intern_tab(v);
        self.tabof.insert((x, root), t);
        Some(t)
    }
    fn mk_tab(&mut self, root: T, tid: u32, w: u16) -> T {
        let t = self.tabs[tid as usize].clone();
        let rlo = self.n[root as usize].lo as usize;
        let (mut mn, mut mx) = (u64::MAX, 0);
        for v in &t[rlo..] { mn = mn.min(*v); mx = mx.max(*v); }
        if mn == mx { return self.konst(mn as u128, w) }
        let rhi = self.n[root as usize].hi;
        let sl = match self.tabslice.get(&(tid, rhi)) { Some(s) => *s, None => {
            let sh = t.iter().fold(0, |a, x| a | x).trailing_zeros() as u16;
            let len = bits((mx >> sh) as u128);
            let mut r = None;
            for lo in 0..14u16 { if t.iter().enumerate().all(|(i, x)| (*x >> sh) == ((i as u64) >> lo) & (mask(len) as u64)) { r = Some((lo, len, sh)); break } }
            self.tabslice.insert((tid, rhi), r); r
        } };
        if let Some((lo, len, sh)) = sl {
            let mut s = vec![];
            if sh > 0 { let z = self.konst(0, sh); s.push(Sl { src: z, lo: 0, len: sh }); }
            s.extend(self.slices_of(root, lo, len));
            return self.mk_cat(s, w);
        }
        // two-valued tables with a simple truth set are selections
        let mut second = None; let mut flips = vec![]; let mut n0 = 0usize; let first = t[rlo]; let mut two = true;
        let (mut l0, mut l1) = (0, 0);
        for (i, v) in t.iter().enumerate().skip(rlo) {
            if *v == first { n0 += 1; l0 = i } else if second.is_none() || second == Some(*v) { second = Some(*v); l1 = i } else { two = false; break }
            if i > rlo && t[i - 1] != *v { flips.push(i); if flips.len() > 2 { two = false; break } }
        }
        if two {
            let n = t.len() - rlo; let s = second.unwrap();
            let tr = if n0 == 1 { Some((Truth::Point(l0 as u128), first, s)) } else if n0 == n - 1 { Some((Truth::Point(l1 as u128), s, first)) }
                else if flips.len() == 1 { Some((Truth::Prefix(flips[0] as u128), first, s)) } else { None };
            if let Some((tr, a, b)) = tr {
                let c = self.from_truth(root, tr).unwrap();
                let (a, b) = (self.konst(a as u128, w), self.konst(b as u128, w));
                return self.ite(c, a, b);
            }
        }
        let taint = self.taint(root);
        self.raw(K::Tab(root, tid), w, mn as u128, mx as u128, root, taint)
    }
    fn tab_bin(&mut self, op: Op, w: u16, a: T, b: T) -> Option<T> {
        let (ca, cb) = (self.c(a), self.c(b));
        let root = match (ca, cb) {
            (None, Some(_)) => self.sr(a), (Some(_), None) => self.sr(b),
            (None, None) => { let (x, y) = (self.sr(a), self.sr(b)); if x != y { return None } x }
            _ => NONE,
        };
        if root == NONE { return None }
        if w > 64 { return None }
        let key = |c: Option<u128>, t: u32| match c { Some(v) => if v < 1 << 62 { Some(v as u64 | 1 << 63) } else { None }, None => Some(t as u64) };
        let ta = if ca.is_none() { self.table_of(a, root)? } else { 0 };
        let tb = if cb.is_none() { self.table_of(b, root)? } else { 0 };
        let hi = self.n[root as usize].hi as usize;
        let kk = match (key(ca, ta), key(cb, tb)) { (Some(x), Some(y)) => Some((op, w, x, y)), _ => None };
        // a constant operand does not fix the table length: only cache when the other one does
        if let Some(k) = kk { if let Some(t) = self.tabop.get(&k) { let t = *t; return Some(self.mk_tab(root, t, w)) } }
        let (va, vb) = (self.tabs.get(ta as usize).cloned(), self.tabs.get(tb as usize).cloned());
        let mut v = Vec::with_capacity(hi + 1);
        for i in 0..=hi {
            let x = ca.unwrap_or_else(|| va.as_ref().unwrap()[i] as u128);
            let y = cb.unwrap_or_else(|| vb.as_ref().unwrap()[i] as u128);
            v.push(eval_bin(op, w, x, y)? as u64);
        }
        let t = self.intern_tab(v);
        if let Some(k) = kk { self.tabop.insert(k, t); }
        Some(self.mk_tab(root, t, w))
    }
    // ---------------------------------------------------------------- bit slices
    /// bits lo..lo+len of x, as slices
    fn slices_of(&mut self, x: T, lo: u16, len: u16) -> Vec<Sl> {
        let mut out = vec![];
        if len == 0 { return out }
        if let Some(c) = self.c(x) { let k = self.konst((c >> lo.min(127)) & mask(len), len); return vec![Sl { src: k, lo: 0, len }] }
        if let K::Cat(s) = self.n[x as usize].k.clone() {
            let mut pos = 0u16; let end = lo + len;
            for sl in s.iter() {
                let (a, b) = (pos.max(lo), (pos + sl.len).min(end));
                if a < b { out.extend(self.slices_of(sl.src, sl.lo + (a - pos), b - a)); }
                pos += sl.len;
            }
            if pos < end { let from = pos.max(lo); let z = self.konst(0, end - from); out.push(Sl { src: z, lo: 0, len: end - from }); }
            return out;
        }
        let nb = bits(self.n[x as usize].hi).max(1);
        if lo >= nb { let z = self.konst(0, len); return vec![Sl { src: z, lo: 0, len }] }
        let l1 = len.min(nb - lo);
        // tables are sliced by value, so that equal slices are the same table
        if let K::Tab(r, t) = self.n[x as usize].k {
            let z = (self.tabs[t as usize].iter().fold(0, |a, e| a | (e >> lo)).trailing_zeros() as u16).min(l1);
            if z > 0 {
                // low bits that are always zero
                let k = self.konst(0, z); out.push(Sl { src: k, lo: 0, len: z });
                out.extend(self.slices_of(x, lo + z, len - z));
                return out
            }
            if !(lo == 0 && l1 == nb) {
                let v: Vec<u64> = self.tabs[t as usize].iter().map(|e| (e >> lo) & mask(l1) as u64).collect();
                let t2 = self.intern_tab(v); let w = self.w(x);
                let y = self.mk_tab(r, t2, w);
                out.extend(if matches!(self.n[y as usize].k, K::Tab(..)) { let yb = bits(self.n[y as usize].hi).max(1); let mut o = vec![Sl { src: y, lo: 0, len: yb.min(l1) }]; if l1 > yb { let z = self.konst(0, l1 - yb); o.push(Sl { src: z, lo: 0, len: l1 - yb }); } o } else { self.slices_of(y, 0, l1) });
            } else { out.push(Sl { src: x, lo: 0, len: l1 }); }
        } else if let (K::Ite(c, a, b), true) = (self.n[x as usize].k.clone(), l1 < nb) {
            if self.c(a).is_some() && self.c(b).is_some() {
                let (va, vb) = (self.c(a).unwrap(), self.c(b).unwrap());
                let w = self.w(x);
                let (ka, kb) = (self.konst((va >> lo) & mask(l1), w), self.konst((vb >> lo) & mask(l1), w));
                let y = self.ite(c, ka, kb);
                if self.c(y).is_some() { out.extend(self.slices_of(y, 0, l1)); } else {
                    let yb = bits(self.n[y as usize].hi).max(1).min(l1);
                    out.push(Sl { src: y, lo: 0, len: yb });
                    if l1 > yb { let z = self.konst(0, l1 - yb); out.push(Sl { src: z, lo: 0, len: l1 - yb }); }
                }
            } else { out.push(Sl { src: x, lo, len: l1 }); }
        } else { out.push(Sl { src: x, lo, len: l1 }); }
        if len > l1 { let z = self.konst(0, len - l1); out.push(Sl { src: z, lo: 0, len: len - l1 }); }
        out
    }
    fn mk_cat(&mut self, s: Vec<Sl>, w: u16) -> T {
        // clip and merge
        let mut out: Vec<Sl> = vec![];
        let mut pos = 0u16;
        for mut sl in s {
            if pos >= w { break }
            if sl.len == 0 { continue }
            if pos + sl.len > w { let l = w - pos; let v = self.slices_of_sl(sl, l); for x in v { self.push_sl(&mut out, x); } break }
            pos += sl.len;
            sl = self.norm_sl(sl);
            self.push_sl(&mut out, sl);
        }
        while let Some(l) = out.last() { if self.c(l.src) == Some(0) { out.pop(); } else { break } }
        if out.is_empty() { return self.konst(0, w) }
        if out.len() == 1 {
            let l = out[0];
            if let Some(c) = self.c(l.src) { return self.konst(c, w) }
            let n = &self.n[l.src as usize];
            if l.lo == 0 && l.len >= bits(n.hi) {
                if n.w == w { return l.src }
                if let K::Tab(r, t) = n.k { return self.mk_tab(r, t, w) }
                if let K::Ite(c, a, b) = n.k { if let (Some(x), Some(y)) = (self.c(a), self.c(b)) { let (a, b) = (self.konst(x, w), self.konst(y, w)); return self.ite(c, a, b) } }
            }
        }
        if out.iter().all(|l| self.c(l.src).is_some()) {
            let mut v = 0u128; let mut p = 0;
            for l in &out { v |= self.c(l.src).unwrap() << p; p += l.len; }
            return self.konst(v, w);
        }
        let srcs: Vec<T> = out.iter().map(|l| l.src).collect();
        let up = self.common_up(&srcs);
        let taint = srcs.iter().fold(0, |a, x| a | self.taint(*x));
        let (mut lo, mut hi, mut p) = (0u128, 0u128, 0u16);
        for l in &out {
            let (sl, sh) = self.range(l.src);
            if l.lo < 128 && bits(sh) <= l.lo + l.len { lo |= (sl >> l.lo) << p; hi |= (sh >> l.lo) << p } else { hi |= mask(l.len) << p }
            p += l.len;
        }
        self.raw(K::Cat(out.into()), w, lo, hi.min(mask(w)), up, taint)
    }
    fn slices_of_sl(&mut self, sl: Sl, l: u16) -> Vec<Sl> { let v = self.slices_of(sl.src, sl.lo, l); v }
    fn norm_sl(&mut self, sl: Sl) -> Sl { sl }
    fn push_sl(&mut self, out: &mut Vec<Sl>, sl: Sl) {
        if let Some(l) = out.last().copied() {
            if let (Some(a), Some(b)) = (self.c(l.src), self.c(sl.src)) {
                if l.len + sl.len <= 128 { let k = self.konst(a | b << l.len, l.len + sl.len); *out.last_mut().unwrap() = Sl { src: k, lo: 0, len: l.len + sl.len }; return }
            }
            if l.src == sl.src && l.lo + l.len == sl.lo { out.last_mut().unwrap().len += sl.len; return }
            // tables over the same root: one table
            let (r1, r2) = (self.sr(l.src), self.sr(sl.src));
            if r1 != NONE && r1 == r2 && l.len + sl.len <= 60 && (matches!(self.n[l.src as usize].k, K::Tab(..)) || matches!(self.n[sl.src as usize].k, K::Tab(..))) {
                if let (Some(t1), Some(t2)) = (self.table_of(l.src, r1), self.table_of(sl.src, r1)) {
                    let v: Vec<u64> = self.tabs[t1 as usize].iter().zip(self.tabs[t2 as usize].iter()).map(|(a, b)| ((a >> l.lo) & mask(l.len) as u64) | ((b >> sl.lo) & mask(sl.len) as u64) << l.len).collect();
                    let t = self.intern_tab(v);
                    let y = self.mk_tab(r1, t, 64);
                    let len = l.len + sl.len;
                    out.pop();
                    match self.n[y as usize].k.clone() {
                        K::Cat(s) => { let mut p = 0; for x in s.iter() { self.push_sl(out, *x); p += x.len; } if p < len { let z = self.konst(0, len - p); self.push_sl(out, Sl { src: z, lo: 0, len: len - p }); } }
                        _ => { let yb = bits(self.n[y as usize].hi).max(1).min(len); out.push(Sl { src: y, lo: 0, len: yb }); if yb < len { let z = self.konst(0, len - yb); out.push(Sl { src: z, lo: 0, len: len - yb }); } }
                    }
                    return;
                }
            }
        }
        out.push(sl);
    }
    /// bits lo..lo+len of x as a term of width w
    pub fn slice(&mut self, x: T, lo: u16, len: u16, w: u16) -> T { let v = self.slices_of(x, lo, len); self.mk_cat(v, w) }
    /// the parts one after the other, lowest first
    pub fn concat(&mut self, parts: &[T], w: u16) -> T {
        let mut v = vec![];
        for p in parts {
            let pw = self.w(*p);
            if pw == 1 { let z = self.zext(*p, 8); v.extend(self.slices_of(z, 0, 1)); } else { v.extend(self.slices_of(*p, 0, pw)); }
        }
        self.mk_cat(v, w)
    }
    pub fn zext(&mut self, x: T, w: u16) -> T {
        let xw = self.w(x);
        if xw == w { return x }
        if let Some(c) = self.c(x) { return self.konst(c, w) }
        if xw == 1 { let (a, b) = (self.konst(1, w), self.konst(0, w)); return self.ite(x, a, b) }
        if w == 1 { return self.to_bool(x) }
        let s = self.slices_of(x, 0, w.min(xw));
        self.mk_cat(s, w)
    }
    /// x is known to be 0 or 1, or only its lowest bit matters
    fn to_bool(&mut self, x: T) -> T {
        let w = self.w(x);
        if w == 1 { return x }
        let y = if self.n[x as usize].hi > 1 { let one = self.konst(1, w); self.bin(Op::And, x, one) } else { x };
        if let K::Ite(c, a, b) = self.n[y as usize].k { if self.c(a) == Some(1) && self.c(b) == Some(0) { return c } if self.c(a) == Some(0) && self.c(b) == Some(1) { return self.not(c) } }
        let one = self.konst(1, w);
        self.eq(y, one)
    }
    pub fn trunc(&mut self, x: T, w: u16) -> T {
        if let K::Ite(c, a, b) = self.n[x as usize].k { if self.c(a).is_some() || self.c(b).is_some() { let (a, b) = (self.trunc(a, w), self.trunc(b, w)); return self.ite(c, a, b) } }
        if self.w(x) == 64 && w < 64 { /* falls through to slices */ }
        let s = self.slices_of(x, 0, w);
        self.mk_cat(s, w)
    }
    pub fn sext(&mut self, x: T, w: u16) -> T {
        let xw = self.w(x);
        if xw >= w { return self.trunc(x, w) }
        if let Some(c) = self.c(x) { return self.konst(sext128(c, xw) as u128, w) }
        if self.n[x as usize].hi >> (xw - 1) == 0 { return self.zext(x, w) }
        if let K::Ite(c, a, b) = self.n[x as usize].k { if self.c(a).is_some() && self.c(b).is_some() { let (a, b) = (self.sext(a, w), self.sext(b, w)); return self.ite(c, a, b) } }
        let taint = self.taint(x);
        self.raw(K::Sext(x), w, 0, mask(w), x, taint)
    }
    pub fn cast(&mut self, x: T, from_signed: bool, w: u16) -> T {
        let xw = self.w(x);
        if xw == w { x } else if w < xw { if w == 1 { self.to_bool(x) } else { self.trunc(x, w) } } else if from_signed { self.sext(x, w) } else { self.zext(x, w) }
    }
    // ---------------------------------------------------------------- linear forms (64 bit)
    fn lin_of(&self, x: T) -> (u128, Vec<(u128, T)>) {
        match &self.n[x as usize].k { K::Const(c) => (*c, vec![]), K::Lin(c, v) => (*c, v.to_vec()), _ => (0, vec![(1, x)]) }
    }
    fn mk_lin(&mut self, c: u128, mut v: Vec<(u128, T)>) -> T {
        let m = mask(64);
        v.sort_by_key(|x| x.1);
        let mut o: Vec<(u128, T)> = vec![];
        for (k, t) in v { if let Some(l) = o.last_mut() { if l.1 == t { l.0 = l.0.wrapping_add(k) & m; continue } } o.push((k & m, t)); }
        o.retain(|x| x.0 != 0);
        let c = c & m;
        if o.is_empty() { return self.konst(c, 64) }
        if o.len() == 1 && c == 0 && o[0].0 == 1 { return o[0].1 }
        // signed interpretation of coefficients for the interval
        let sg = |k: u128| sext128(k, 64);
        let (mut lo, mut hi) = (sg(c), sg(c));
        let mut exact = true;
        for (k, t) in &o {
            let (a, b) = self.range(*t); let k = sg(*k);
            let (x, y) = (k.checked_mul(a as i128), k.checked_mul(b as i128));
            let (Some(x), Some(y)) = (x, y) else { exact = false; break };
            lo = lo.saturating_add(x.min(y)); hi = hi.saturating_add(x.max(y));
        }
        if !exact || lo < 0 || hi > m as i128 { lo = 0; hi = m as i128 }
        let ts: Vec<T> = o.iter().map(|x| x.1).collect();
        let up = self.common_up(&ts);
        let taint = ts.iter().fold(0, |a, x| a | self.taint(*x));
        self.raw(K::Lin(c, o.into()), 64, lo as u128, hi as u128, up, taint)
    }
    // ---------------------------------------------------------------- operations
    pub fn bin(&mut self, op: Op, a: T, b: T) -> T {
        let w = self.w(a);
        let wb = self.w(b);
        if wb != w && !matches!(op, Op::Shl | Op::Shr | Op::Sar) { let s = self.sym("badwidth"); let t = self.taint(a) | self.taint(b); return self.raw(K::App(s, vec![a, b].into()), w, 0, mask(w), NONE, t) }
        let (ca, cb) = (self.c(a), self.c(b));
        if let (Some(x), Some(y)) = (ca, cb) { if let Some(v) = eval_bin(op, w, x, y) { return self.konst(v, w) } }
        if w == 1 {
            return match op {
                Op::And | Op::Mul => self.and(&[a, b]),
                Op::Or => { let (x, y) = (self.not(a), self.not(b)); let z = self.and(&[x, y]); self.not(z) }
                Op::Xor | Op::Add | Op::Sub => { let e = self.eq(a, b); self.not(e) }
                _ => a,
            };
        }
        // identities
        match op {
            Op::Add | Op::Or | Op::Xor => { if ca == Some(0) { return b } if cb == Some(0) { return a } }
            Op::Sub | Op::Shl | Op::Shr | Op::Sar => { if cb == Some(0) { return a } }
            Op::Mul => { if ca == Some(1) { return b } if cb == Some(1) { return a } if ca == Some(0) || cb == Some(0) { return self.konst(0, w) } }
            Op::And => { if ca == Some(0) || cb == Some(0) { return self.konst(0, w) } if ca == Some(mask(w)) { return b } if cb == Some(mask(w)) { return a } }
            Op::Div => { if cb == Some(1) { return a } }
            Op::Rem => {}
        }
        if a == b { match op { Op::Sub | Op::Xor => return self.konst(0, w), Op::And | Op::Or => return a, _ => {} } }
        if op == Op::Or && (ca == Some(mask(w)) || cb == Some(mask(w))) { return self.konst(mask(w), w) }
        if let Op::Xor = op {
            for (x, y) in [(a, b), (b, a)] { if let K::Bin(Op::Xor, p, q) = self.n[y as usize].k { if p == x { return q } if q == x { return p } } }
        }
        // selections
        let ia = if let K::Ite(c, x, y) = self.n[a as usize].k { Some((c, x, y)) } else { None };
        let ib = if let K::Ite(c, x, y) = self.n[b as usize].k { Some((c, x, y)) } else { None };
        if let Some((c, x, y)) = ia {
            if let Some((c2, x2, y2)) = ib { if c == c2 { let (p, q) = (self.bin(op, x, x2), self.bin(op, y, y2)); return self.ite(c, p, q) } }
            let k = self.c(x).is_some() && self.c(y).is_some();
            let z = self.c(x) == Some(0) || self.c(y) == Some(0);
            if (k && cb.is_some()) || (k && op == Op::And && [x, y].iter().all(|t| matches!(self.c(*t), Some(v) if v == 0 || v == mask(w)))) || (z && matches!(op, Op::Xor | Op::Or | Op::Add)) || (cb.is_some() && (self.c(x).is_some() || self.c(y).is_some()) && wb == w) {
                let (p, q) = (self.bin(op, x, b), self.bin(op, y, b)); return self.ite(c, p, q)
            }
        }
        if let Some((c, x, y)) = ib {
            let k = self.c(x).is_some() && self.c(y).is_some();
            let z = self.c(x) == Some(0) || self.c(y) == Some(0);
            if (k && ca.is_some()) || (k && op == Op::And && [x, y].iter().all(|t| matches!(self.c(*t), Some(v) if v == 0 || v == mask(w)))) || (z && matches!(op, Op::Xor | Op::Or | Op::Add | Op::Sub)) || (ca.is_some() && (self.c(x).is_some() || self.c(y).is_some()) && wb == w) {
                let (p, q) = (self.bin(op, a, x), self.bin(op, a, y)); return self.ite(c, p, q)
            }
        }
        if matches!(op, Op::And | Op::Or | Op::Xor) && self.n[a as usize].hi <= 1 && self.n[b as usize].hi <= 1 {
            let (x, y) = (self.to_bool(a), self.to_bool(b));
            let r = self.bin(op, x, y);
            return self.zext(r, w);
        }
        if matches!(op, Op::Shl | Op::Shr | Op::Sar) && cb.is_none() { return self.generic(op, w, a, b) }
        // small finite domains
        if self.n[a as usize].sr != NONE || self.n[b as usize].sr != NONE { if let Some(t) = self.tab_bin(op, w, a, b) { return t } }
        // bit slices
        match (op, ca, cb) {
            (Op::And, _, Some(m)) => if let Some(t) = self.and_mask(a, m, w) { return t },
            (Op::And, Some(m), _) => if let Some(t) = self.and_mask(b, m, w) { return t },
            (Op::Shl, _, Some(s)) => { if s >= w as u128 { return self.konst(0, w) } let z = self.konst(0, s as u16); let mut v = vec![Sl { src: z, lo: 0, len: s as u16 }]; v.extend(self.slices_of(a, 0, w - s as u16)); return self.mk_cat(v, w) }
            (Op::Shr, _, Some(s)) => { if s >= w as u128 { return self.konst(0, w) } let v = self.slices_of(a, s as u16, w - s as u16); return self.mk_cat(v, w) }
            (Op::Sar, _, Some(s)) => {
                if self.n[a as usize].hi >> (w - 1) == 0 { return self.bin(Op::Shr, a, b) }
                if s >= w as u128 - 1 { let h = self.konst(mask(w) >> 1, w); let c = self.lt(h, a); let (x, y) = (self.konst(mask(w), w), self.konst(0, w)); return self.ite(c, x, y) }
            }
            (Op::Mul, _, Some(m)) if m.is_power_of_two() && w != 64 => { let s = self.konst(m.trailing_zeros() as u128, w); return self.bin(Op::Shl, a, s) }
            (Op::Mul, Some(m), _) if m.is_power_of_two() && w != 64 => { let s = self.konst(m.trailing_zeros() as u128, w); return self.bin(Op::Shl, b, s) }
            (Op::Div, _, Some(m)) if m.is_power_of_two() => { let s = self.konst(m.trailing_zeros() as u128, w); return self.bin(Op::Shr, a, s) }
            (Op::Rem, _, Some(m)) if m.is_power_of_two() => { let s = self.konst(m - 1, w); return self.bin(Op::And, a, s) }
            (Op::Or, ..) | (Op::Xor, ..) | (Op::Add, ..) => if !(op == Op::Add && w == 64) || matches!(self.n[a as usize].k, K::Cat(_)) && matches!(self.n[b as usize].k, K::Cat(_)) { if let Some(t) = self.disjoint_or(a, b, w) { return t } },
            _ => {}
        }
        if op == Op::Xor && w > 1 && cb == Some(mask(w)) { if let K::Bin(Op::Xor, p, q) = self.n[a as usize].k { if self.c(q) == cb { return p } } }
        if w == 64 {
            match op {
                Op::Add | Op::Sub => {
                    let (c1, mut v1) = self.lin_of(a); let (c2, v2) = self.lin_of(b);
                    if v1.len() + v2.len() <= 12 {
                        let neg = op == Op::Sub;
                        v1.extend(v2.into_iter().map(|(k, t)| (if neg { k.wrapping_neg() & mask(64) } else { k }, t)));
                        return self.mk_lin(if neg { c1.wrapping_sub(c2) } else { c1.wrapping_add(c2) }, v1)
                    }
                }
                Op::Mul if ca.is_some() || cb.is_some() => {
                    let (m, x) = if let Some(m) = ca { (m, b) } else { (cb.unwrap(), a) };
                    let (c, v) = self.lin_of(x);
                    return self.mk_lin(c.wrapping_mul(m), v.into_iter().map(|(k, t)| (k.wrapping_mul(m) & mask(64), t)).collect());
                }
                _ => {}
            }
        }
        let (a, b) = match op { Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor => { if ca.is_some() || (cb.is_none() && a > b) { (b, a) } else { (a, b) } } _ => (a, b) };
        // (x + c1) + c2 and friends
        if let Some(c2) = self.c(b) {
            if let (Op::Add | Op::Sub, K::Bin(o1 @ (Op::Add | Op::Sub), x, y)) = (op, self.n[a as usize].k.clone()) {
                if let Some(c1) = self.c(y) {
                    let s = |o: Op, c: u128| if o == Op::Sub { c.wrapping_neg() } else { c };
                    let c = s(op, c2).wrapping_add(s(o1, c1)) & mask(w);
                    // keep the sign that avoids wrapping in the interval
                    let neg = c.wrapping_neg() & mask(w);
                    let (o, k) = if neg < c { (Op::Sub, neg) } else { (Op::Add, c) };
                    let k = self.konst(k, w);
                    return self.bin(o, x, k);
                }
            }
        }
        self.generic(op, w, a, b)
    }
    fn generic(&mut self, op: Op, w: u16, a: T, b: T) -> T {
        let key = (K::Bin(op, a, b), w);
        if let Some(i) = self.ix.get(&key) { return *self.facts_eq.get(i).unwrap_or(i) }
        let (al, ah) = self.range(a); let (bl, bh) = self.range(b);
        let m = mask(w);
        let full = (0, m);
        let mut exact = true;
        let (lo, hi) = match op {
            Op::Add => if ah.checked_add(bh).map_or(false, |x| x <= m) { (al + bl, ah + bh) } else { exact = false; full },
            Op::Sub => if al >= bh { (al - bh, ah - bl) } else { exact = false; full },
            Op::Mul => if ah.checked_mul(bh).map_or(false, |x| x <= m) { (al * bl, ah * bh) } else { exact = false; full },
            Op::Div => if bl > 0 { (al / bh, ah / bl) } else { full },
            Op::Rem => if bl > 0 { (0, ah.min(bh - 1)) } else { full },
            Op::And => (0, ah.min(bh)),
            Op::Or => (al.max(bl), mask(bits(ah).max(bits(bh)))),
            Op::Xor => (0, mask(bits(ah).max(bits(bh)))),
            Op::Shr => if bh < 128 { (al >> bh, ah >> bl) } else { (0, ah) },
            Op::Shl => if bh < w as u128 && bits(ah) + (bh as u16) <= w { (al << bl, ah << bh) } else { full },
            Op::Sar => full,
        };
        let up = self.common_up(&[a, b]);
        let taint = self.taint(a) | self.taint(b);
        let both = self.c(a).is_none() && self.c(b).is_none();
        let x = self.raw(K::Bin(op, a, b), w, lo, hi.min(m), up, taint);
        if up != NONE && (both || !exact || op == Op::Sar) {
            let r = self.med_root(up);
            if r != NONE { if let Some((l, h)) = self.tab_range(x, r) { let n = &mut self.n[x as usize]; n.lo = l; n.hi = h; if n.sr == NONE && h < SMALL && n.w > 1 { n.sr = x } } }
        }
        x
    }
    fn and_mask(&mut self, x: T, m: u128, w: u16) -> Option<T> {
        let mut s = vec![]; let mut i = 0u16; let mut runs = 0;
        while i < w {
            let one = (m >> i) & 1 == 1; let mut j = i;
            while j < w && ((m >> j) & 1 == 1) == one { j += 1 }
            if one { runs += 1; if runs > 12 { return None } s.extend(self.slices_of(x, i, j - i)); } else { let z = self.konst(0, j - i); s.push(Sl { src: z, lo: 0, len: j - i }); }
            i = j;
        }
        Some(self.mk_cat(s, w))
    }
    fn disjoint_or(&mut self, a: T, b: T, w: u16) -> Option<T> {
        let (mut x, mut y) = (self.slices_of(a, 0, w), self.slices_of(b, 0, w));
        let mut out = vec![];
        let (mut i, mut j) = (0, 0);
        while i < x.len() && j < y.len() {
            let l = x[i].len.min(y[j].len);
            let zx = self.c(x[i].src) == Some(0); let zy = self.c(y[j].src) == Some(0);
            let cx = self.c(x[i].src); let cy = self.c(y[j].src);
            // only split constants
            if x[i].len > l { let c = cx; let xi = x[i]; if let Some(c) = c { x[i] = Sl { src: self.konst(c, l), lo: 0, len: l }; let k = self.konst(c >> l, xi.len - l); x.insert(i + 1, Sl { src: k, lo: 0, len: xi.len - l }); } else if zy { let v = self.split(xi, l); x.splice(i..i + 1, v); } else { return None } continue }
            if y[j].len > l { let c = cy; let yj = y[j]; if let Some(c) = c { y[j] = Sl { src: self.konst(c, l), lo: 0, len: l }; let k = self.konst(c >> l, yj.len - l); y.insert(j + 1, Sl { src: k, lo: 0, len: yj.len - l }); } else if zx { let v = self.split(yj, l); y.splice(j..j + 1, v); } else { return None } continue }
            if zx { out.push(y[j]) } else if zy { out.push(x[i]) } else { return None }
            i += 1; j += 1;
        }
        Some(self.mk_cat(out, w))
    }
    fn split(&mut self, s: Sl, l: u16) -> Vec<Sl> { let mut v = self.slices_of(s.src, s.lo, l); v.extend(self.slices_of(s.src, s.lo + l, s.len - l)); v }
    pub fn not(&mut self, a: T) -> T {
        if let Some(c) = self.c(a) { return self.b(c == 0) }
        if let K::Not(x) = self.n[a as usize].k { return x }
        let taint = self.taint(a); let up = if self.n[a as usize].up != NONE { self.n[a as usize].up } else { NONE };
        let up = if up == NONE { a } else { up };
        self.raw(K::Not(a), 1, 0, 1, up, taint)
    }
    pub fn and(&mut self, xs: &[T]) -> T {
        let mut v: Vec<T> = vec![];
        for &x in xs { match &self.n[x as usize].k { K::Const(0) => return Self::FALSE, K::Const(_) => {} K::And(s) => v.extend(s.iter()), _ => v.push(x) } }
        v.sort(); v.dedup();
        for &x in &v { if let K::Not(y) = self.n[x as usize].k { if v.binary_search(&y).is_ok() { return Self::FALSE } } }
        if v.is_empty() { return Self::TRUE }
        if v.len() == 1 { return v[0] }
        // absorption: a & !(a & b) = a & !b
        let mut changed = false;
        for i in 0..v.len() {
            if let K::Not(y) = self.n[v[i] as usize].k { if let K::And(s) = self.n[y as usize].k.clone() {
                if s.len() < 64 && s.iter().any(|z| v.contains(z)) {
                    let rest: Vec<T> = s.iter().copied().filter(|z| !v.contains(z)).collect();
                    let r = self.and(&rest); v[i] = self.not(r); changed = true; break;
                }
            } }
        }
        if changed { return self.and(&v) }
        let up = if v.len() <= 16 { self.common_up(&v) } else { NONE };
        let taint = v.iter().fold(0, |a, x| a | self.taint(*x));
        self.raw(K::And(v.into()), 1, 0, 1, up, taint)
    }
    pub fn or(&mut self, xs: &[T]) -> T { let v: Vec<T> = xs.iter().map(|x| self.not(*x)).collect(); let a = self.and(&v); self.not(a) }
    fn eq_raw(&mut self, a: T, b: T) -> T {
        let (a, b) = if self.c(a).is_some() || (self.c(b).is_none() && a > b) { (b, a) } else { (a, b) };
        let up = self.common_up(&[a, b]); let t = self.taint(a) | self.taint(b);
        self.raw(K::Eq(a, b), 1, 0, 1, up, t)
    }
    fn lt_raw(&mut self, a: T, b: T) -> T {
        let up = self.common_up(&[a, b]); let t = self.taint(a) | self.taint(b);
        self.raw(K::Lt(a, b), 1, 0, 1, up, t)
    }
    pub fn eq(&mut self, a: T, b: T) -> T {
        if a == b { return Self::TRUE }
        let (ca, cb) = (self.c(a), self.c(b));
        if let (Some(x), Some(y)) = (ca, cb) { return self.b(x == y) }
        if self.w(a) == 1 && self.w(b) == 1 {
            match (ca, cb) { (Some(1), _) => return b, (Some(0), _) => return self.not(b), (_, Some(1)) => return a, (_, Some(0)) => return self.not(a), _ => {} }
            if let K::Not(x) = self.n[a as usize].k { if x == b { return Self::FALSE } if let K::Not(y) = self.n[b as usize].k { return self.eq(x, y) } let e = self.eq(x, b); return self.not(e) }
            if let K::Not(y) = self.n[b as usize].k { let e = self.eq(a, y); return self.not(e) }
        }
        if self.w(a) != 0 { let (al, ah) = self.range(a); let (bl, bh) = self.range(b); if ah < bl || bh < al { return Self::FALSE } }
        let (a, b) = if ca.is_some() { (b, a) } else { (a, b) };
        let cb = self.c(b);
        // zero tests of ors and xors
        if cb == Some(0) && self.w(a) > 1 {
            let mut work = vec![a]; let mut eqs = vec![]; let mut seen: fxhash::FxHashSet<T> = Default::default(); let mut hit = false;
            while let Some(x) = work.pop() {
                if !seen.insert(x) { continue }
                match self.n[x as usize].k.clone() {
                    K::Bin(Op::Or, p, q) => { hit = true; work.push(p); work.push(q) }
                    K::Bin(Op::Xor, p, q) => { hit = true; let e = self.eq(p, q); eqs.push(e) }
                    K::Cat(s) if s.iter().filter(|l| self.c(l.src).is_none()).count() > 1 || s.len() > 1 => {
                        hit = true;
                        for l in s.iter() { if self.c(l.src).map_or(false, |c| c != 0) { return Self::FALSE } if self.c(l.src).is_some() { continue } let w = self.w(l.src); let y = { let v = self.slices_of(l.src, l.lo, l.len); self.mk_cat(v, w) }; work.push(y) }
                    }
                    _ => { let z = self.konst(0, self.w(x)); let e = if x == a && !hit { NONE } else { self.eq(x, z) }; if e != NONE { eqs.push(e) } else { eqs.push(NONE) } }
                }
            }
            if hit { let v: Vec<T> = eqs.into_iter().filter(|x| *x != NONE).collect(); return self.and(&v) }
        }
        for (x, y) in [(a, b), (b, a)] {
            if let K::Ite(c, p, q) = self.n[x as usize].k {
                if let K::Ite(c2, p2, q2) = self.n[y as usize].k { if c == c2 { let (u, v) = (self.eq(p, p2), self.eq(q, q2)); return self.ite(c, u, v) } }
                if self.w(x) != 0 && (self.c(p).is_some() || self.c(q).is_some()) && self.c(y).is_some() { let (u, v) = (self.eq(p, y), self.eq(q, y)); return self.ite(c, u, v) }
                if p == y { let v = self.eq(q, y); return self.or(&[c, v]) }
                if q == y { let u = self.eq(p, y); let nc = self.not(c); return self.or(&[nc, u]) }
            }
        }
        // equality of aligned slices
        if let (K::Cat(s1), K::Cat(s2)) = (self.n[a as usize].k.clone(), self.n[b as usize].k.clone()) {
            if s1.len() == s2.len() && s1.iter().zip(s2.iter()).all(|(x, y)| x.len == y.len) && s1.len() > 1 {
                let mut v = vec![];
                for (x, y) in s1.iter().zip(s2.iter()) { let p = self.slices_of(x.src, x.lo, x.len); let p = self.mk_cat(p, 64.max(x.len)); let q = self.slices_of(y.src, y.lo, y.len); let q = self.mk_cat(q, 64.max(y.len)); v.push(self.eq(p, q)); }
                return self.and(&v);
            }
        }
        if self.w(a) == 64 && matches!((self.k(a), self.k(b)), (K::Lin(..), _) | (_, K::Lin(..))) {
            // x + c == y + c
            let (c1, v1) = self.lin_of(a); let (c2, v2) = self.lin_of(b);
            if v1.len() <= 6 && v2.len() <= 6 {
                let mut d = v1; d.extend(v2.into_iter().map(|(k, t)| (k.wrapping_neg() & mask(64), t)));
                let dl = self.mk_lin(c1.wrapping_sub(c2), d);
                if let Some(c) = self.c(dl) { return self.b(c == 0) }
            }
        }
        let r = self.eq_raw(a, b);
        self.truth(r)
    }
    pub fn lt(&mut self, a: T, b: T) -> T {
        if a == b { return Self::FALSE }
        let (al, ah) = self.range(a); let (bl, bh) = self.range(b);
        if ah < bl { return Self::TRUE } if al >= bh { return Self::FALSE }
        if let K::Ite(c, p, q) = self.n[a as usize].k { if self.c(b).is_some() && (self.c(p).is_some() || self.c(q).is_some()) { let (u, v) = (self.lt(p, b), self.lt(q, b)); return self.ite(c, u, v) } }
        if let K::Ite(c, p, q) = self.n[b as usize].k { if self.c(a).is_some() && (self.c(p).is_some() || self.c(q).is_some()) { let (u, v) = (self.lt(a, p), self.lt(a, q)); return self.ite(c, u, v) } }
        // canonical point tests
        if self.c(b) == Some(1) { let z = self.konst(0, self.w(a)); return self.eq(a, z) }
        if self.c(a) == Some(0) { let z = self.konst(0, self.w(b)); let e = self.eq(b, z); return self.not(e) }
        if let Some(k) = self.c(a) { if bh == k + 1 { let z = self.konst(k + 1, self.w(b)); return self.eq(b, z) }
            // c < x  is  not (x < c+1)
            let z = self.konst(k + 1, self.w(b)); let l = self.lt(b, z); return self.not(l) }
        if let Some(k) = self.c(b) { if ah == k { let e = self.eq(a, b); return self.not(e) } }
        if self.w(a) == 64 && matches!((self.k(a), self.k(b)), (K::Lin(..), _) | (_, K::Lin(..))) {
            // constant difference without wrap-around on either side
            let (c1, v1) = self.lin_of(a); let (c2, v2) = self.lin_of(b);
            if v1 == v2 && self.lin_nowrap(a) && self.lin_nowrap(b) { return self.b(c1 < c2) }
        }
        let r = self.lt_raw(a, b);
        self.truth(r)
    }
    fn lin_nowrap(&self, x: T) -> bool {
        match &self.n[x as usize].k {
            K::Lin(c, v) => { let mut hi = *c; if *c >> 63 != 0 { return false } for (k, t) in v.iter() { if *k >> 63 != 0 { return false } hi = hi.saturating_add(k.saturating_mul(self.n[*t as usize].hi)); } hi <= mask(64) }
            _ => true,
        }
    }
    /// canonical form of a comparison that depends on one small value only
    fn truth(&mut self, r: T) -> T {
        let up = self.n[r as usize].up;
        if up == NONE { return r }
        let root = { let s = self.n[up as usize].sr; if s != NONE { s } else { self.med_root(up) } };
        if root == NONE { return r }
        if let K::Eq(x, y) | K::Lt(x, y) = self.n[r as usize].k { if x == root && self.c(y).is_some() && self.n[root as usize].hi > 1 { return r } }
        let Some(tr) = self.tab_truth(r, root) else { return r };
        if let Some(x) = self.from_truth(root, tr) { return x }
        if self.n[root as usize].hi < SMALL {
            if let Some(t) = self.table_of(r, root) { let taint = self.taint(root); return self.raw(K::Tab(root, t), 1, 0, 1, root, taint) }
        }
        r
    }
    pub fn ite(&mut self, c: T, a: T, b: T) -> T {
        if c == Self::TRUE || a == b { return a }
        if c == Self::FALSE { return b }
        if let K::Not(d) = self.n[c as usize].k { return self.ite(d, b, a) }
        let w = self.w(a);
        if w == 1 {
            let (ca, cb) = (self.c(a), self.c(b));
            match (ca, cb) {
                (Some(1), Some(0)) => return c, (Some(0), Some(1)) => return self.not(c),
                (Some(1), _) => return self.or(&[c, b]), (Some(0), _) => { let n = self.not(c); return self.and(&[n, b]) }
                (_, Some(0)) => return self.and(&[c, a]), (_, Some(1)) => { let n = self.not(c); return self.or(&[n, a]) }
                _ => {}
            }
        }
        let mut a = a; let mut b = b;
        if let K::Ite(c2, x, _) = self.n[a as usize].k { if c2 == c { a = x } }
        if let K::Ite(c2, _, y) = self.n[b as usize].k { if c2 == c { b = y } }
        if a == b { return a }
        // nested selections with a shared leaf
        if let K::Ite(c2, x, y) = self.n[a as usize].k { if y == b { let cc = self.and(&[c, c2]); return self.ite(cc, x, b) } }
        if let K::Ite(c2, x, y) = self.n[b as usize].k { if x == a { let cc = self.or(&[c, c2]); return self.ite(cc, a, y) } }
        let key = (K::Ite(c, a, b), w);
        if let Some(i) = self.ix.get(&key) { return *self.facts_eq.get(i).unwrap_or(i) }
        let (al, ah) = self.range_given(a, c, true); let (bl, bh) = self.range_given(b, c, false);
        let taint = self.taint(a) | self.taint(b) | self.taint(c);
        let up = if w > 0 { self.common_up(&[c, a, b]) } else { NONE };
        let x = self.raw(key.0.clone(), w, al.min(bl), ah.max(bh), up, taint);
        if up != NONE && w > 1 {
            let r = self.med_root(up);
            if r != NONE {
                if let Some((l, h)) = self.tab_range(x, r) { let n = &mut self.n[x as usize]; n.lo = l; n.hi = h; if n.sr == NONE && h < SMALL { n.sr = x } }
                let s = self.n[r as usize].sr;
                if s != NONE && self.n[s as usize].hi > 1 && w <= 64 && !(self.c(a).is_some() && self.c(b).is_some()) { if let Some(t) = self.table_of(x, s) { let y = self.mk_tab(s, t, w); self.ix.insert(key, y); return y } }
            }
        }
        x
    }
    /// range of x assuming c has the given value
    pub fn range_given(&self, x: T, c: T, val: bool) -> (u128, u128) { self.range_under(x, &[(c, val)], 4) }
    /// range of x assuming all the given truth values (direct comparisons, sums, selections)
    pub fn range_under(&self, x: T, facts: &[(T, bool)], depth: u32) -> (u128, u128) {
        let (mut lo, mut hi) = self.range(x);
        for (c, v) in facts { self.fact_range(x, *c, *v, &mut lo, &mut hi) }
        if depth > 0 {
            let w = self.w(x);
            match &self.n[x as usize].k {
                K::Ite(c, a, b) => {
                    let known = facts.iter().find(|f| f.0 == *c).map(|f| f.1);
                    let mut fa: Vec<(T, bool)> = facts.to_vec();
                    let r = match known {
                        Some(true) => self.range_under(*a, facts, depth - 1),
                        Some(false) => self.range_under(*b, facts, depth - 1),
                        None => {
                            fa.push((*c, true)); let p = self.range_under(*a, &fa, depth - 1);
                            fa.pop(); fa.push((*c, false)); let q = self.range_under(*b, &fa, depth - 1);
                            (p.0.min(q.0), p.1.max(q.1))
                        }
                    };
                    lo = lo.max(r.0); hi = hi.min(r.1);
                }
                K::Lin(c, v) if v.len() <= 4 => {
                    let (mut l, mut h) = (sext128(*c, 64), sext128(*c, 64)); let mut ok = true;
                    for (k, t) in v.iter() {
                        let (a, b) = self.range_under(*t, facts, depth - 1); let k = sext128(*k, 64);
                        match (k.checked_mul(a as i128), k.checked_mul(b as i128)) { (Some(p), Some(q)) => { l = l.saturating_add(p.min(q)); h = h.saturating_add(p.max(q)); } _ => ok = false }
                    }
                    if ok && l >= 0 && h <= mask(64) as i128 { lo = lo.max(l as u128); hi = hi.min(h as u128); }
                }
                K::Bin(Op::Add, a, b) => { let (p, q) = (self.range_under(*a, facts, depth - 1), self.range_under(*b, facts, depth - 1)); if p.1 + q.1 <= mask(w) { lo = lo.max(p.0 + q.0); hi = hi.min(p.1 + q.1) } }
                K::Bin(Op::Sub, a, b) => { let (p, q) = (self.range_under(*a, facts, depth - 1), self.range_under(*b, facts, depth - 1)); if p.0 >= q.1 { lo = lo.max(p.0 - q.1); hi = hi.min(p.1 - q.0) } }
                K::Cat(s) if s.len() == 1 && s[0].lo == 0 => { let p = self.range_under(s[0].src, facts, depth - 1); if p.1 <= mask(s[0].len) { lo = lo.max(p.0); hi = hi.min(p.1) } }
                _ => {}
            }
        }
        if lo <= hi { (lo, hi) } else { self.range(x) }
    }
    /// bounds of x from a condition on a, both tabulated functions of one value
    fn through(&self, x: T, a: T, ok: impl Fn(u128) -> bool, lo: &mut u128, hi: &mut u128) {
        let part = |t: T| match &self.n[t as usize].k { K::Tab(r, i) => (*r, Some(*i)), _ => (t, None) };
        let ((rx, tx), (ra, ta)) = (part(x), part(a));
        if rx != ra || (tx.is_none() && ta.is_none()) || tx == ta { return }
        let (l, h) = self.range(rx); if h > 1 << 16 { return }
        let at = |t: Option<u32>, v: u128| match t { None => Some(v), Some(i) => self.tabs[i as usize].get(v as usize).map(|y| *y as u128) };
        let (mut nl, mut nh) = (u128::MAX, 0);
        for v in l..=h {
            let (Some(p), Some(q)) = (at(tx, v), at(ta, v)) else { return };
            if ok(q) { nl = nl.min(p); nh = nh.max(p) }
        }
        if nl <= nh { *lo = (*lo).max(nl); *hi = (*hi).min(nh) }
    }
    /// d with x = a + d, when neither wraps around
    fn offset(&self, x: T, a: T) -> Option<i128> {
        if self.w(x) != 64 || self.w(a) != 64 { return None }
        let part = |t: T| match &self.n[t as usize].k { K::Lin(c, v) => (sext128(*c, 64), v.to_vec()), K::Const(_) => (0, vec![]), _ => (0, vec![(1u128, t)]) };
        let ((cx, vx), (ca, va)) = (part(x), part(a));
        if vx.is_empty() || vx != va { return None }
        let d = cx - ca; let (l, h) = self.range(a);
        if h > mask(62) || l as i128 + d < 0 { return None }
        Some(d)
    }
    fn fact_range(&self, x: T, c: T, val: bool, lo: &mut u128, hi: &mut u128) {
        let sub = |t: T| -> bool { t == x || matches!(&self.n[x as usize].k, K::Cat(s) if s.len() == 1 && s[0].src == t && s[0].lo == 0) || matches!(&self.n[t as usize].k, K::Cat(s) if s.len() == 1 && s[0].src == x && s[0].lo == 0 && s[0].len >= bits(self.n[x as usize].hi)) };
        match &self.n[c as usize].k {
            K::Not(d) => self.fact_range(x, *d, !val, lo, hi),
            K::And(v) if val => for d in v.iter() { self.fact_range(x, *d, true, lo, hi) },
            K::Lt(a, b) => {
                if sub(*a) { if val { *hi = (*hi).min(self.n[*b as usize].hi.saturating_sub(1)) } else { *lo = (*lo).max(self.n[*b as usize].lo) } }
                if sub(*b) { if val { *lo = (*lo).max(self.n[*a as usize].lo + 1) } else { *hi = (*hi).min(self.n[*a as usize].hi) } }
                // the same up to a constant, or for two functions of one small value
                let (blo, bhi, alo, ahi) = (self.n[*b as usize].lo, self.n[*b as usize].hi, self.n[*a as usize].lo, self.n[*a as usize].hi);
                if let Some(d) = self.offset(x, *a).filter(|d| *d != 0) { if val { *hi = (*hi).min((bhi as i128 - 1 + d).max(0) as u128) } else { *lo = (*lo).max((blo as i128 + d).max(0) as u128) } }
                if let Some(d) = self.offset(x, *b).filter(|d| *d != 0) { if val { *lo = (*lo).max((alo as i128 + 1 + d).max(0) as u128) } else { *hi = (*hi).min((ahi as i128 + d).max(0) as u128) } }
                self.through(x, *a, |v| if val { v < bhi } else { v >= blo }, lo, hi);
                self.through(x, *b, |v| if val { v > alo } else { v <= ahi }, lo, hi);
            }
            K::Eq(a, b) if val => {
                for (p, q) in [(a, b), (b, a)] { if sub(*p) { *lo = (*lo).max(self.n[*q as usize].lo); *hi = (*hi).min(self.n[*q as usize].hi) } }
            }
            K::Eq(a, b) => { if sub(*a) { if let Some(k) = self.c(*b) { if *lo == k { *lo += 1 } if *hi == k && k > 0 { *hi -= 1 } } } }
            _ => {}
        }
    }
    /// is the boolean c decided by the facts?
    pub fn decide(&self, c: T, facts: &[(T, bool)]) -> Option<bool> {
        match &self.n[c as usize].k {
            K::Const(v) => return Some(*v != 0),
            K::Not(d) => return self.decide(*d, facts).map(|b| !b),
            _ => {}
        }
        for (f, v) in facts {
            if *f == c { return Some(*v) }
            if let K::Not(g) = self.n[*f as usize].k { if g == c { return Some(!*v) } }
            if let (K::And(x), true) = (&self.n[*f as usize].k, *v) {
                if x.contains(&c) { return Some(true) }
                if x.iter().any(|y| matches!(self.n[*y as usize].k, K::Not(g) if g == c)) { return Some(false) }
            }
        }
        match &self.n[c as usize].k {
            K::And(x) => { let mut all = true; for y in x.iter() { match self.decide(*y, facts) { Some(false) => return Some(false), Some(true) => {} None => all = false } } if all { return Some(true) } None }
            K::Lt(a, b) => { let (p, q) = (self.range_under(*a, facts, 4), self.range_under(*b, facts, 4)); if p.1 < q.0 { Some(true) } else if p.0 >= q.1 { Some(false) } else { None } }
            K::Eq(a, b) if self.w(*a) > 1 => { let (p, q) = (self.range_under(*a, facts, 4), self.range_under(*b, facts, 4)); if p.1 < q.0 || q.1 < p.0 { Some(false) } else if p.0 == p.1 && p == q { Some(true) } else { None } }
            _ => None,
        }
    }
    // ---------------------------------------------------------------- inspection
    pub fn show(&self, t: T) -> String { let mut s = String::new(); self.show_in(t, 5, &mut s); s }
    pub fn show_d(&self, t: T, d: u32) -> String { let mut s = String::new(); self.show_in(t, d, &mut s); s }
    fn show_in(&self, t: T, d: u32, o: &mut String) {
        use std::fmt::Write;
        if d == 0 { let _ = write!(o, "#{t}"); return }
        let n = &self.n[t as usize];
        let list = |o: &mut String, v: &[T]| { for (i, x) in v.iter().enumerate() { if i > 0 { o.push(',') } if i > 6 { let _ = write!(o, "..{}", v.len()); break } self.show_in(*x, d - 1, o); } };
        match &n.k {
            K::Const(c) => { let _ = write!(o, "{c}"); }
            K::Atom(s) => { let _ = write!(o, "{}", self.names[*s as usize]); }
            K::Bin(op, a, b) => { let _ = write!(o, "({op:?} "); list(o, &[*a, *b]); o.push(')') }
            K::Cat(s) => { o.push('{'); for (i, x) in s.iter().enumerate() { if i > 0 { o.push('|') } self.show_in(x.src, d - 1, o); let _ = write!(o, "[{}..{}]", x.lo, x.lo + x.len); } let _ = write!(o, "}}:{}", n.w); }
            K::Tab(r, t) => { let _ = write!(o, "tab{t}("); self.show_in(*r, d - 1, o); o.push(')') }
            K::Ite(c, a, b) => { o.push_str("ite("); list(o, &[*c, *a, *b]); o.push(')') }
            K::And(v) => { o.push_str("and("); list(o, v); o.push(')') }
            K::Not(a) => { o.push('!'); self.show_in(*a, d - 1, o) }
            K::Eq(a, b) => { o.push_str("eq("); list(o, &[*a, *b]); o.push(')') }
            K::Lt(a, b) => { o.push_str("lt("); list(o, &[*a, *b]); o.push(')') }
            K::App(s, v) => { let _ = write!(o, "{}(", self.names[*s as usize]); list(o, v); o.push(')') }
            K::Sel(a, i) => { self.show_in(*a, d - 1, o); let _ = write!(o, ".{i}"); }
            K::Lin(c, v) => { let _ = write!(o, "lin({}", sext128(*c, 64)); for (k, x) in v.iter() { let _ = write!(o, "+{}*", sext128(*k, 64)); self.show_in(*x, d - 1, o); } o.push(')') }
            K::Sext(a) => { o.push_str("sext("); list(o, &[*a]); o.push(')') }
        }
    }
    pub fn children(&self, t: T) -> Vec<T> {
        match &self.n[t as usize].k {
            K::Const(_) | K::Atom(_) => vec![],
            K::Bin(_, a, b) | K::Eq(a, b) | K::Lt(a, b) => vec![*a, *b],
            K::Cat(s) => s.iter().map(|x| x.src).collect(),
            K::Tab(r, _) => vec![*r],
            K::Ite(c, a, b) => vec![*c, *a, *b],
            K::And(v) | K::App(_, v) => v.to_vec(),
            K::Not(a) | K::Sel(a, _) | K::Sext(a) => vec![*a],
            K::Lin(_, v) => v.iter().map(|x| x.1).collect(),
        }
    }
    /// all terms that `t` depends on
    pub fn deps(&self, ts: &[T]) -> fxhash::FxHashSet<T> {
        let mut seen: fxhash::FxHashSet<T> = Default::default(); let mut w = ts.to_vec();
        while let Some(x) = w.pop() { if seen.insert(x) { w.extend(self.children(x)) } }
        seen
    }
}
