//! K07, K08: the equations of the scheme, decided on value numbers read as linear forms over the integers modulo q.
//! A value is a sum of multiples of stream bits, decoded coefficients and products of two such sums.
use crate::check::Report;
use crate::kyber::{self, Findings, Run};
use crate::models;
use crate::term::*;
use fxhash::{FxHashMap, FxHashSet};
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

const Q: u64 = 7681;
const N: usize = 256;
fn pw(mut b: u64, mut e: u64) -> u64 { let mut r = 1; b %= Q; while e > 0 { if e & 1 == 1 { r = r * b % Q } b = b * b % Q; e >>= 1 } r }
fn inv(x: u64) -> u64 { pw(x, Q - 2) }

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum M { Leaf(T), Slice(T, u16, u16), Bit(T, u16), Prod(u32, u32) }
/// constant and multiples of monomials, sorted, none of them zero
pub type Form = Rc<(u64, Vec<(u32, u32)>)>;
/// sum of multiples of single bits, over the integers
type Bits = Rc<(i128, Vec<(u32, i128)>)>;

#[derive(Default)]
pub struct Ring { mono: FxHashMap<M, u32>, pub monos: Vec<M>, forms: FxHashMap<Form, u32>, pub byid: Vec<Form>, memo: FxHashMap<(T, Option<(T, bool)>), Form>, bits: FxHashMap<T, Option<Bits>>, two: FxHashMap<(T, u16), Form2>, fit: FxHashMap<(Op, u128, u128, u128, u128, u128), bool>, tabs: FxHashMap<T, Vec<(T, u32)>>, rel: FxHashMap<(u32, u32, usize, usize), Option<(u64, u64)>> }
type Form2 = Rc<(u128, BTreeMap<T, u128>)>;

impl Ring {
    fn m(&mut self, m: M) -> u32 { if let Some(i) = self.mono.get(&m) { return *i } let i = self.monos.len() as u32; self.monos.push(m.clone()); self.mono.insert(m, i); i }
    fn konst(c: u64) -> Form { Rc::new((c % Q, vec![])) }
    fn leaf(&mut self, m: M) -> Form { let i = self.m(m); Rc::new((0, vec![(i, 1)])) }
    fn scale(f: &Form, k: u64) -> Form { let k = k % Q; if k == 1 { return f.clone() } if k == 0 { return Self::konst(0) } Rc::new((f.0 * k % Q, f.1.iter().map(|(m, c)| (*m, (*c as u64 * k % Q) as u32)).collect())) }
    /// a + k * b
    fn add(a: &Form, b: &Form, k: u64) -> Form {
        let k = k % Q;
        let mut v = Vec::with_capacity(a.1.len() + b.1.len());
        let (mut i, mut j) = (0, 0);
        while i < a.1.len() || j < b.1.len() {
            let (x, y) = (a.1.get(i).map(|e| e.0).unwrap_or(u32::MAX), b.1.get(j).map(|e| e.0).unwrap_or(u32::MAX));
            if x < y { v.push(a.1[i]); i += 1 } else {
                let c = b.1[j].1 as u64 * k % Q + if x == y { a.1[i].1 as u64 } else { 0 };
                if x == y { i += 1 }
                j += 1;
                if c % Q != 0 { v.push((y, (c % Q) as u32)) }
            }
        }
        Rc::new(((a.0 + b.0 * k) % Q, v))
    }
    /// the form divided by its first coefficient, by number, and that coefficient
    pub fn monic(&mut self, f: &Form) -> (u32, u64) {
        let s = f.1.first().map(|x| x.1 as u64).unwrap_or(1);
        let g = Self::scale(f, inv(s));
        if let Some(i) = self.forms.get(&g) { return (*i, s) }
        let i = self.byid.len() as u32; self.byid.push(g.clone()); self.forms.insert(g, i); (i, s)
    }
    /// the value of every pair of arguments is exact
    fn fits(&mut self, t: &Terms, op: Op, x: T, a: T, b: T, given: Option<(T, bool)>) -> bool {
        let m = mask(t.w(x));
        let ok = |u: u128, v: u128| match op { Op::Add => u + v <= m, Op::Sub => u >= v, Op::Mul => u.checked_mul(v).map(|z| z <= m).unwrap_or(false), _ => false };
        let (mut ra, mut rb) = (t.range(a), t.range(b));
        let all = |ra: (u128, u128), rb: (u128, u128)| if op == Op::Sub { ra.0 >= rb.1 } else { ok(ra.1, rb.1) };
        if all(ra, rb) { return true }
        if let Some((c, v)) = given { ra = t.range_given(a, c, v); rb = t.range_given(b, c, v); if all(ra, rb) { return true } }
        let (ca, cb) = (t.chain(a), t.chain(b));
        let shared: Vec<T> = if t.c(a).is_some() { cb } else if t.c(b).is_some() { ca } else { ca.into_iter().filter(|y| cb.contains(y)).collect() };
        for root in shared.into_iter().filter(|r| t.range(*r).1 - t.range(*r).0 < 1 << 17).take(2) {
            let (lo, hi) = t.range(root);
            let sh = |y: T| t.shape(y, root, &mut Default::default());
            let key = (op, sh(a), sh(b), lo, hi, given.map(|(c, v)| sh(c) ^ v as u128).unwrap_or(0));
            if let Some(r) = self.fit.get(&key) { if *r { return true } continue }
            let r = (lo..=hi).all(|v| {
                let mut p = Default::default();
                if let Some((c, b)) = given { if t.eval_at(c, root, v, &mut p).map(|x| (x != 0) != b).unwrap_or(false) { return true } }
                matches!((t.eval_at(a, root, v, &mut p), t.eval_at(b, root, v, &mut p)), (Some(u), Some(w)) if ok(u, w))
            });
            self.fit.insert(key, r);
            if r { return true }
        }
        false
    }
    /// the value as a sum of multiples of single bits, over the integers
    fn bits_of(&mut self, t: &Terms, x: T) -> Option<Bits> {
        if let Some(b) = self.bits.get(&x) { return b.clone() }
        let r = self.bits_in(t, x);
        let r = r.filter(|b| b.1.len() <= 512).map(Rc::new);
        self.bits.insert(x, r.clone());
        r
    }
    fn bits_in(&mut self, t: &Terms, x: T) -> Option<(i128, Vec<(u32, i128)>)> {
        let w = t.w(x);
        match t.k(x).clone() {
            K::Const(c) => Some((i128::try_from(c).ok()?, vec![])),
            K::Sel(..) | K::Atom(_) if w <= 64 && w > 1 && t.range(x).1 == mask(w) => Some((0, (0..w).map(|i| (self.m(M::Bit(x, i)), 1i128 << i)).collect())),
            K::Cat(s) => {
                let (mut c, mut v, mut pos) = (0, vec![], 0u16);
                for sl in s.iter() {
                    let b = self.bits_of(t, sl.src)?;
                    let (lo, top) = (1i128.checked_shl(sl.lo as u32).filter(|x| *x > 0)?, if sl.len >= 126 { i128::MAX } else { 1i128 << sl.len });
                    // what is below the slice stays below
                    let (below, up): (Vec<_>, Vec<_>) = b.1.iter().copied().partition(|e| e.1 % lo != 0);
                    let (min, max) = span(b.0.rem_euclid(lo), &below);
                    if min < 0 || max >= lo { return None }
                    let r = (b.0.div_euclid(lo), up.into_iter().map(|e| (e.0, e.1 / lo)).collect());
                    let r = narrow(r, top)?;
                    c += r.0 << pos;
                    v.extend(r.1.into_iter().map(|e| (e.0, e.1 << pos)));
                    pos += sl.len;
                }
                Some((c, merge(v)))
            }
            K::Lin(c, xs) if w <= 64 => {
                let signed = |k: u128| { let k = k as i128; if k >> (w - 1) != 0 { k - (1 << w) } else { k } };
                let (mut k, mut v) = (signed(c), vec![]);
                for (f, y) in xs.iter() { let (f, b) = (signed(*f), self.bits_of(t, *y)?); k = k.checked_add(b.0.checked_mul(f)?)?; for e in &b.1 { v.push((e.0, e.1.checked_mul(f)?)) } }
                if v.len() > 1024 || v.iter().any(|e| e.1.unsigned_abs() >> 100 != 0) { return None }
                narrow((k, merge(v)), 1 << w)
            }
            K::Bin(op @ (Op::Add | Op::Sub), a, b) if w <= 64 => {
                let (p, q) = (self.bits_of(t, a)?, self.bits_of(t, b)?);
                let s = if op == Op::Sub { -1 } else { 1 };
                narrow((p.0 + s * q.0, merge(p.1.iter().copied().chain(q.1.iter().map(|e| (e.0, s * e.1))).collect())), 1 << w)
            }
            K::Bin(Op::Mul, a, b) if w <= 64 => {
                let (a, k) = match (t.c(a), t.c(b)) { (_, Some(k)) => (a, k), (Some(k), _) => (b, k), _ => return None };
                if k >> 32 != 0 { return None }
                let p = self.bits_of(t, a)?;
                narrow((p.0 * k as i128, p.1.iter().map(|e| (e.0, e.1 * k as i128)).collect()), 1 << w)
            }
            K::Tab(r, id) => {
                // a table that adds a constant, or multiplies
                let b = self.bits_of(t, r)?;
                if let Some((a, d)) = affine(t, r, id, None) { return Some((b.0 * a as i128 + d as i128, b.1.iter().map(|e| (e.0, e.1 * a as i128)).collect())) }
                let tab = t.table(id);
                linear(&b, |v| tab.get(v as usize).map(|x| *x as i128))
            }
            _ => None,
        }
    }
    /// the value modulo 2^k
    fn two(&mut self, t: &Terms, x: T, k: u16) -> Form2 {
        if let Some(f) = self.two.get(&(x, k)) { return f.clone() }
        let m = mask(k);
        let add = |a: &mut (u128, BTreeMap<T, u128>), b: &Form2, f: u128| { a.0 = (a.0 + b.0 * f) & m; for (y, c) in &b.1 { let e = a.1.entry(*y).or_insert(0); *e = (*e + c.wrapping_mul(f)) & m; } a.1.retain(|_, c| *c != 0) };
        let mut r = (0, BTreeMap::new());
        let wide = t.w(x) >= k;
        match t.k(x).clone() {
            K::Const(c) => r.0 = c & m,
            K::Bin(op @ (Op::Add | Op::Sub), a, b) if wide => { let (p, q) = (self.two(t, a, k), self.two(t, b, k)); add(&mut r, &p, 1); add(&mut r, &q, if op == Op::Add { 1 } else { m }) }
            K::Bin(Op::Mul, a, b) if wide && (t.c(a).is_some() || t.c(b).is_some()) => { let (y, c) = match t.c(b) { Some(c) => (a, c), None => (b, t.c(a).unwrap()) }; let p = self.two(t, y, k); add(&mut r, &p, c & m) }
            K::Lin(c, xs) if wide => { r.0 = c & m; for (f, y) in xs.iter() { let p = self.two(t, *y, k); add(&mut r, &p, f & m) } }
            K::Cat(s) => {
                let mut pos = 0; let mut ok = true;
                let parts: Vec<(T, u16)> = s.iter().map(|sl| { let e = (sl.src, pos); if pos < k && !(sl.lo == 0 && (pos + sl.len >= k || sl.len >= bits(t.range(sl.src).1))) { ok = false } pos += sl.len; e }).collect();
                if ok { for (y, p) in parts { if p < k { let f = self.two(t, y, k); add(&mut r, &f, (1u128 << p) & m) } } } else { r.1.insert(x, 1); }
            }
            _ => { r.1.insert(x, 1); }
        }
        let r = Rc::new(r);
        self.two.insert((x, k), r.clone());
        r
    }
    /// a function of a byte as a sum of multiples of its bits
    fn in_bits(&mut self, t: &Terms, r: T, f: impl Fn(u64) -> Option<u64>) -> Option<Form> {
        if t.w(r) != 8 || t.range(r) != (0, 255) || !matches!(t.k(r), K::Sel(..) | K::Atom(_)) { return None }
        let c = f(0)? % Q;
        let mut k = [0; 8];
        for i in 0..8 { k[i] = (f(1 << i)? % Q + Q - c) % Q }
        for v in 0..256u64 { if f(v)? % Q != ((0..8).map(|i| (v >> i & 1) * k[i]).sum::<u64>() + c) % Q { return None } }
        let mut v: Vec<(u32, u32)> = (0..8).filter(|i| k[*i] != 0).map(|i| (self.m(M::Bit(r, i as u16)), k[i] as u32)).collect();
        v.sort();
        Some(Rc::new((c, v)))
    }
    /// a table: a multiple of another table over the same value and a constant, or a leaf
    fn tab_leaf(&mut self, t: &Terms, x: T, r: T, id: u32) -> Form {
        let (lo, hi) = t.range(r);
        let (lo, hi) = (lo as usize, hi as usize);
        if t.table(id).len() <= hi { return self.leaf(M::Leaf(x)) }
        for (y, j) in self.tabs.get(&r).cloned().unwrap_or_default() {
            let rel = *self.rel.entry((id, j, lo, hi)).or_insert_with(|| {
                let (a, b) = (t.table(id), t.table(j));
                if b.len() <= hi { return None }
                let k = (lo + 1..=hi).find(|v| b[*v] % Q != b[lo] % Q)?;
                let f = (a[k] % Q + Q - a[lo] % Q) * inv((b[k] % Q + Q - b[lo] % Q) % Q) % Q;
                let d = (a[lo] % Q + Q * Q - f * (b[lo] % Q)) % Q;
                (lo..=hi).all(|v| a[v] % Q == (f * (b[v] % Q) + d) % Q).then_some((f, d))
            });
            if let Some((f, d)) = rel { let l = self.leaf(M::Leaf(y)); return Self::add(&Self::konst(d), &l, f) }
        }
        self.tabs.entry(r).or_default().push((x, id));
        self.leaf(M::Leaf(x))
    }
    pub fn form(&mut self, t: &Terms, x: T) -> Form { self.form_given(t, x, None) }
    fn form_given(&mut self, t: &Terms, x: T, given: Option<(T, bool)>) -> Form {
        if let Some(f) = self.memo.get(&(x, given)) { return f.clone() }
        let f = self.form_in(t, x, given);
        self.memo.insert((x, given), f.clone());
        f
    }
    fn form_in(&mut self, t: &Terms, x: T, given: Option<(T, bool)>) -> Form {
        if let K::Const(c) = t.k(x) { return Self::konst((*c % Q as u128) as u64) }
        if let Some(b) = self.bits_of(t, x) { return Rc::new((b.0.rem_euclid(Q as i128) as u64, b.1.iter().map(|e| (e.0, e.1.rem_euclid(Q as i128) as u32)).filter(|e| e.1 != 0).collect())) }
        match t.k(x).clone() {
            K::Bin(op @ (Op::Add | Op::Sub), a, b) if self.fits(t, op, x, a, b, given) => { let (p, q) = (self.form(t, a), self.form(t, b)); Self::add(&p, &q, if op == Op::Add { 1 } else { Q - 1 }) }
            K::Bin(Op::Mul, a, b) if self.fits(t, Op::Mul, x, a, b, given) => {
                let (p, q) = (self.form(t, a), self.form(t, b));
                if q.1.is_empty() { Self::scale(&p, q.0) } else if p.1.is_empty() { Self::scale(&q, p.0) } else {
                    let ((i, s), (j, u)) = (self.monic(&p), self.monic(&q));
                    let m = self.m(M::Prod(i.min(j), i.max(j)));
                    Rc::new((0, vec![(m, (s * u % Q) as u32)]))
                }
            }
            K::Bin(Op::Rem, a, b) if t.c(b) == Some(Q as u128) => self.form(t, a),
            K::Bin(Op::Shl, a, b) if t.c(b).map(|b| t.range(a).1 << b <= mask(t.w(x))).unwrap_or(false) => { let p = self.form(t, a); Self::scale(&p, pw(2, t.c(b).unwrap() as u64)) }
            K::Bin(Op::Shr, a, b) if t.c(b).map(|b| b < 64).unwrap_or(false) => { let k = t.c(b).unwrap() as u16; let z = self.two(t, a, k); if z.0 == 0 && z.1.is_empty() { let p = self.form(t, a); Self::scale(&p, inv(pw(2, k as u64))) } else { self.leaf(M::Leaf(x)) } }
            K::Lin(c, xs) => {
                let mut max = Some(c);
                for (f, y) in xs.iter() { max = max.and_then(|m| m.checked_add(t.range(*y).1.checked_mul(*f)?)) }
                if max.map(|m| m > mask(t.w(x))).unwrap_or(true) { return self.leaf(M::Leaf(x)) }
                let mut r = Self::konst((c % Q as u128) as u64);
                for (f, y) in xs.iter() { let p = self.form(t, *y); r = Self::add(&r, &p, (f % Q as u128) as u64) }
                r
            }
            K::Cat(s) => {
                let mut r = Self::konst(0); let mut pos = 0u64;
                for sl in s.iter() {
                    let top = bits(t.range(sl.src).1) <= sl.lo + sl.len;
                    let p = if sl.lo == 0 && top { self.form_given(t, sl.src, given) } else {
                        let z = if sl.lo > 0 && top { Some(self.two(t, sl.src, sl.lo)) } else { None };
                        if z.map(|z| z.0 == 0 && z.1.is_empty()).unwrap_or(false) { let p = self.form_given(t, sl.src, given); Self::scale(&p, inv(pw(2, sl.lo as u64))) } else { self.leaf(M::Slice(sl.src, sl.lo, sl.len)) }
                    };
                    r = Self::add(&r, &p, pw(2, pos));
                    pos += sl.len as u64;
                }
                r
            }
            K::Tab(r, id) => match affine(t, r, id, Some(Q)) { Some((a, d)) => { let p = self.form_given(t, r, given); Self::add(&Self::konst(d as u64), &p, a as u64) } None => { let tab = t.table(id); match self.in_bits(t, r, |v| tab.get(v as usize).copied()) { Some(f) => f, None => self.tab_leaf(t, x, r, id) } } },
            K::Ite(c, a, b) => { let (u, v) = (self.form_given(t, a, Some((c, true))), self.form_given(t, b, Some((c, false)))); if u == v { return u }
                let d = Self::add(&u, &v, Q - 1);
                if !d.1.is_empty() { return self.leaf(M::Leaf(x)) }
                // a choice between two values with a constant difference
                let Some(r) = t.chain(c).into_iter().skip(1).find(|r| t.w(*r) > 1) else { return self.leaf(M::Leaf(x)) };
                match self.in_bits(t, r, |v| t.eval_at(c, r, v as u128, &mut Default::default()).map(|x| x as u64)) { Some(f) => Self::add(&v, &f, d.0), None => self.leaf(M::Leaf(x)) }
            }
            _ => self.leaf(M::Leaf(x)),
        }
    }
}
fn merge(mut v: Vec<(u32, i128)>) -> Vec<(u32, i128)> { v.sort(); let mut o: Vec<(u32, i128)> = vec![]; for (m, c) in v { if let Some(l) = o.last_mut() { if l.0 == m { l.1 += c; continue } } o.push((m, c)) } o.retain(|e| e.1 != 0); o }
/// bit j of a value that was put together bit by bit: tables and choices that leave the bit alone are looked through
fn bit_of(t: &mut Terms, x: T, j: u16, memo: &mut FxHashMap<(T, u16), T>) -> T {
    if let Some(y) = memo.get(&(x, j)) { return *y }
    let w = t.w(x);
    let y = match t.k(x).clone() {
        K::Ite(c, a, b) => { let (p, q) = (bit_of(t, a, j, memo), bit_of(t, b, j, memo)); if p == q { p } else { let (p, q) = (t.slice(p, 0, 1, 1), t.slice(q, 0, 1, 1)); t.ite(c, p, q) } }
        K::Tab(r, id) if t.w(r) == w => {
            let (lo, hi) = t.range(r);
            let tab = t.table(id);
            let same = hi < tab.len() as u128 && (lo..=hi).all(|v| tab[v as usize] as u128 >> j & 1 == v >> j & 1);
            if same { bit_of(t, r, j, memo) } else { t.slice(x, j, 1, w) }
        }
        _ => t.slice(x, j, 1, w),
    };
    memo.insert((x, j), y);
    y
}
/// the least and the greatest value of a sum of multiples of different bits
fn span(c: i128, v: &[(u32, i128)]) -> (i128, i128) { (c + v.iter().map(|e| e.1.min(0)).sum::<i128>(), c + v.iter().map(|e| e.1.max(0)).sum::<i128>()) }
/// the sum modulo top, if it does not wrap for some bits only
fn narrow(b: (i128, Vec<(u32, i128)>), top: i128) -> Option<(i128, Vec<(u32, i128)>)> {
    let (min, max) = span(b.0, &b.1);
    if min >= 0 && max < top { return Some(b) }
    let v: Vec<(u32, i128)> = b.1.into_iter().map(|e| { let r = e.1.rem_euclid(top); (e.0, if e.1 < 0 && r != 0 { r - top } else { r }) }).filter(|e| e.1 != 0).collect();
    let (min, max) = span(b.0, &v);
    let k = min.div_euclid(top);
    (max.div_euclid(top) == k).then(|| (b.0 - k * top, v))
}
/// a function of a sum of few bits, if it is such a sum itself
fn linear(b: &(i128, Vec<(u32, i128)>), f: impl Fn(i128) -> Option<i128>) -> Option<(i128, Vec<(u32, i128)>)> {
    if b.1.len() > 10 { return None }
    let c = f(b.0)?;
    let mut k = vec![];
    for e in &b.1 { k.push((e.0, f(b.0 + e.1)? - c)) }
    for s in 0..1u32 << b.1.len() {
        let (mut x, mut y) = (b.0, c);
        for (i, e) in b.1.iter().enumerate() { if s >> i & 1 == 1 { x += e.1; y += k[i].1 } }
        if f(x)? != y { return None }
    }
    k.retain(|e| e.1 != 0);
    Some((c, k))
}
/// the table over the values of r as a multiple of r and a constant (modulo q if given, without a carry below zero otherwise)
fn affine(t: &Terms, r: T, id: u32, q: Option<u64>) -> Option<(u128, u128)> {
    let (lo, hi) = t.range(r); let tab = t.table(id);
    if hi >= tab.len() as u128 { return None }
    let (t0, t1) = (tab[lo as usize], *tab.get(lo as usize + 1).unwrap_or(&tab[lo as usize]));
    let (a, d) = match q {
        Some(q) => { let a = (t1 % q + q - t0 % q) % q; (a, (t0 % q + q - (lo as u64 % q) * a % q) % q) }
        None => { let a = t1.checked_sub(t0)?; (a, t0.checked_sub(lo as u64 * a)?) }
    };
    (lo..=hi).all(|v| match q { Some(q) => tab[v as usize] % q == (a * (v as u64 % q) + d) % q, None => Some(tab[v as usize]) == a.checked_mul(v as u64).and_then(|z| z.checked_add(d)) }).then_some((a as u128, d as u128))
}

// ------------------------------------------------------------------------------------------------ transforms
#[derive(Clone)]
struct Fwd { u: Vec<u64>, w: Vec<u64> }
/// the stream a bit is read from, and its position in it
fn bit_at(t: &Terms, m: &M) -> Option<(T, u64)> { let M::Bit(x, i) = m else { return None }; match *t.k(*x) { K::Sel(a, k) => Some((a, k as u64 * 8 + *i as u64)), _ => None } }
impl Ring {
    /// the noise coefficients behind values that are sums of multiples of stream bits: every bit of one coefficient has the same factor
    fn noise_base(&self, t: &Terms, f: &Form) -> Result<Vec<Form>, String> {
        let mut by: BTreeMap<u64, Vec<(u64, u32)>> = BTreeMap::new();
        for (m, c) in &f.1 { let Some((_, p)) = bit_at(t, &self.monos[*m as usize]) else { return Err(format!("a transformed noise value is not a sum of stream bits but has {:?} in it", self.monos[*m as usize])) }; by.entry(*c as u64).or_default().push((p, *m)) }
        let mut v: Vec<(u64, Form)> = vec![];
        while let Some((c, mut a)) = by.pop_first() {
            let mut b = by.remove(&(Q - c)).unwrap_or_default();
            a.sort(); b.sort();
            if a.first() > b.first() && !b.is_empty() { std::mem::swap(&mut a, &mut b) }
            let mut l: Vec<(u32, u32)> = a.iter().map(|e| (e.1, 1)).chain(b.iter().map(|e| (e.1, Q as u32 - 1))).collect(); l.sort();
            v.push((a[0].0, Rc::new((0, l))))
        }
        v.sort();
        if v.len() != N { return Err(format!("a transformed noise polynomial has {} coefficients", v.len())) }
        Ok(v.into_iter().map(|x| x.1).collect())
    }
    /// are these the values of the polynomial at 256 different roots of x^256 + 1, up to a factor each?
    fn forward(&self, base: &[Form], f: &[Form]) -> Result<Fwd, String> {
        if base.len() != N || f.len() != N { return Err("the polynomial does not have 256 coefficients".into()) }
        let lead: Vec<(u32, u64)> = base.iter().map(|b| b.1.first().map(|e| (e.0, e.1 as u64)).unwrap_or((u32::MAX, 1))).collect();
        let mut w = vec![]; let mut u = vec![];
        for (k, g) in f.iter().enumerate() {
            let at = |i: usize| g.1.binary_search_by_key(&lead[i].0, |e| e.0).ok().map(|x| g.1[x].1 as u64 * inv(lead[i].1) % Q).unwrap_or(0);
            let (c0, c1) = (at(0), at(1));
            if c0 == 0 || c1 == 0 { return Err(format!("value {k} does not depend on the first coefficients")) }
            let r = c1 * inv(c0) % Q;
            let mut want: Vec<(u32, u32)> = Vec::with_capacity(g.1.len());
            let (mut k0, mut c) = (0, c0);
            for b in base { k0 = (k0 + b.0 * c) % Q; want.extend(b.1.iter().map(|e| (e.0, (e.1 as u64 * c % Q) as u32))); c = c * r % Q }
            want.sort();
            if want != g.1 || k0 != g.0 { return Err(format!("value {k} is not that of the polynomial at a point")) }
            if pw(r, N as u64) != Q - 1 { return Err(format!("value {k} is taken at {r}, which is no root of x^256 + 1")) }
            w.push(r); u.push(c0)
        }
        if w.iter().collect::<BTreeSet<_>>().len() != N { return Err("two values are taken at the same point".into()) }
        Ok(Fwd { u, w })
    }
    /// the outputs are factor * the coefficients of the polynomial with these values, the sums of products of the pairs; what else they contain
    fn inverse(&mut self, out: &[Form], pairs: &[Vec<(Form, Form)>], w: &[u64]) -> Result<(u64, Vec<Form>), String> {
        let mut at: FxHashMap<u32, (usize, u64)> = Default::default();
        let mut n = 0;
        for p in pairs { for (k, (x, y)) in p.iter().enumerate() { let ((i, s), (j, v)) = (self.monic(x), self.monic(y)); let m = self.m(M::Prod(i.min(j), i.max(j))); at.insert(m, (k, s * v % Q)); n += 1 } }
        if at.len() != n { return Err("two of the products are the same".into()) }
        if out.len() != N { return Err("the result does not have 256 coefficients".into()) }
        let mut f = None; let mut rest = vec![];
        for (c, o) in out.iter().enumerate() {
            let mut r = vec![]; let mut seen = 0;
            for (m, g) in &o.1 {
                match at.get(m) {
                    Some((k, s)) => {
                        seen += 1;
                        let e = *g as u64 * inv(*s) % Q * pw(w[*k], c as u64) % Q * N as u64 % Q;
                        if *f.get_or_insert(e) != e { return Err(format!("coefficient {c} is not that of the product")) }
                    }
                    None => r.push((*m, *g)),
                }
            }
            if seen != n { return Err(format!("coefficient {c} contains {seen} of {n} products")) }
            if let Some((m, _)) = r.iter().find(|e| matches!(self.monos[e.0 as usize], M::Prod(..))) { return Err(format!("coefficient {c} contains a product that is not part of the equation ({:?})", self.monos[*m as usize])) }
            rest.push(Rc::new((o.0, r)));
        }
        Ok((f.unwrap_or(0), rest))
    }
}
/// the value that was rounded to get x, and the largest change
fn rounded(t: &Terms, x: T) -> Result<(T, u64, u64), String> {
    let Some(r) = t.chain(x).into_iter().skip(1).find(|r| t.w(*r) > 8 && t.range(*r).1 < 1 << 17 && t.range(*r).1 >= Q as u128 - 1) else { return Err(format!("no value is rounded to {}", t.show(x).chars().take(120).collect::<String>())) };
    let (lo, hi) = t.range(r);
    let (mut most, mut codes) = (0, BTreeSet::new());
    for v in lo..=hi {
        let Some(y) = t.eval_at(x, r, v, &mut Default::default()) else { return Err("the rounding is not a function of one value".into()) };
        let d = ((y as u64 % Q) + Q - (v as u64 % Q)) % Q;
        most = most.max(d.min(Q - d)); codes.insert(y);
    }
    Ok((r, most, codes.len() as u64))
}
struct Eq<'a> { fs: &'a mut Findings, memo: FxHashMap<(u64, u64), u64> }
impl<'a> Eq<'a> {
    fn got<A>(&mut self, rule: &str, f: &str, root: &str, n: u64, x: Result<A, String>) -> Option<A> {
        self.fs.ok(rule, n);
        match x { Ok(a) => Some(a), Err(e) => { self.fs.viol(rule, f.into(), format!("{e} ({f}, {root})")); None } }
    }
}
/// the values behind a rounded polynomial vector
fn round_all(fs: &mut Findings, t: &Terms, xs: &[T], f: &str, root: &str, seen: &mut FxHashMap<(u32, u128, u128), Result<(u64, u64), String>>) -> Vec<T> {
    let rule = "rounding moves a value by at most half a step";
    let mut out = vec![];
    for x in xs {
        // the same table over the same interval is decided once
        let key = if let K::Tab(r, id) = *t.k(*x) { if t.chain(*x).get(1) == Some(&r) && t.w(r) > 8 { let g = t.range(r); Some((r, (id, g.0, g.1))) } else { None } } else { None };
        let res = match key { Some((r, k)) if seen.contains_key(&k) => seen[&k].clone().map(|m| (r, m.0, m.1)), _ => { let v = rounded(t, *x); if let Some((r, k)) = key { if v.as_ref().map(|v| v.0 == r).unwrap_or(true) { seen.insert(k, v.clone().map(|v| (v.1, v.2))); } } v } };
        match res {
            Ok((r, most, codes)) => {
                out.push(r);
                fs.must(rule, 2 * codes * most <= Q + codes, || f.into(), || format!("a coefficient rounded to one of {codes} values moves by up to {most} ({f}, {root})"));
            }
            Err(e) => { fs.viol(rule, f.into(), format!("{e} ({f}, {root})")); return vec![] }
        }
    }
    out
}
fn blocks(r: &mut Ring, t: &Terms, xs: &[T]) -> Vec<Vec<Form>> { xs.chunks(N).map(|c| c.iter().map(|x| r.form(t, *x)).collect()).collect() }
/// what a coefficient of noise is made of: (stream, positions added, positions subtracted)
fn noise_of(r: &Ring, t: &Terms, f: &Form) -> Option<(T, Vec<u64>, Vec<u64>)> {
    if f.0 != 0 || f.1.is_empty() { return None }
    let (mut s, mut a, mut b) = (None, vec![], vec![]);
    for (m, c) in &f.1 { let (x, p) = bit_at(t, &r.monos[*m as usize])?; if *s.get_or_insert(x) != x { return None } if *c == 1 { a.push(p) } else if *c as u64 == Q - 1 { b.push(p) } else { return None } }
    Some((s?, a, b))
}
/// polynomials of noise
struct Noise { polys: Vec<(String, Vec<Form>)> }
fn check_noise(fs: &mut Findings, r: &Ring, t: &Terms, ns: &Noise, eta: usize, root: &str) {
    for (what, p) in &ns.polys {
        fs.count("noise coefficients", p.len() as u64);
        let mut used: BTreeSet<u64> = BTreeSet::new(); let mut streams: BTreeSet<T> = BTreeSet::new(); let mut n = 0;
        for (i, f) in p.iter().enumerate() {
            let x = noise_of(r, t, f);
            fs.must("a noise coefficient is a difference of two sums of bits", x.is_some(), || what.clone(), || format!("coefficient {i} of {what} is not a difference of two sums of single stream bits ({root})"));
            let Some((s, a, b)) = x else { continue };
            fs.must("both sums have eta bits", a.len() == eta && b.len() == eta, || what.clone(), || format!("coefficient {i} of {what} adds {} bits and subtracts {}, instead of {eta} each ({root})", a.len(), b.len()));
            streams.insert(s); n += a.len() + b.len(); used.extend(a); used.extend(b);
        }
        fs.must("every stream bit is used once", used.len() == n && streams.len() == 1 && n > 0, || what.clone(), || format!("{what} uses {} different bits of {} streams {n} times ({root})", used.len(), streams.len()));
    }
}

impl Fwd { fn norm(&self, f: &[Form]) -> Vec<Form> { f.iter().zip(&self.u).map(|(f, u)| Ring::scale(f, inv(*u))).collect() } }
fn pair(a: &[Vec<Form>], b: &[Vec<Form>]) -> Vec<Vec<(Form, Form)>> { (0..a.len()).map(|j| a[j].iter().cloned().zip(b[j].iter().cloned()).collect()).collect() }

const KEY: &str = "vru_kyber::indcpa::key_pair";
const ENC: &str = "vru_kyber::indcpa::encapsulate";
const DEC: &str = "vru_kyber::indcpa::decapsulate";
const NTT: &str = "vru_kyber::poly::Poly::ntt";


fn start(p: &'static ir::Program, w: &str, n: &str, taints: &[u64], fs: &mut Findings) -> Option<Run> {
    let name = format!("kyber::{w}::{n}");

    let Some(mut r) = Run::prepare(p, &name, taints, &models::install) else { fs.viol("anchor", name.clone(), format!("entry point {name} is gone")); return None };
    r.complete(fs);

    Some(r)
}
fn width(w: &'static str, wd: usize, p: &'static ir::Program, which: u8) -> Findings {
    let mut fs = Findings::default();
    let eta = [5, 4, 3][wd - 2];
    let mut out = Findings::default();
    let mut seen = Default::default();
    let big = |t: &Terms, xs: &[T]| -> Vec<T> { xs.iter().copied().filter(|x| t.w(*x) > 8).collect() };
    // decapsulation: the transform of what was received, and the equation of decryption
    let mut dec = None;
    if let Some(mut r) = start(p, w, "opened", &[], &mut fs) {
        let (sk, ct) = (r.part(1), r.part(2));
        let sks: FxHashSet<T> = r.ins[0].iter().copied().collect();
        let ev: Vec<Vec<T>> = r.it.events.iter().filter(|e| e.kind.starts_with("hash:")).map(|e| e.terms.clone()).collect();
        let root = r.root.clone();
        let (mut bitsof, mut bm): (Vec<T>, FxHashMap<(T, u16), T>) = Default::default();
        if let Some(h) = ev.iter().find(|h| h.iter().any(|x| r.it.t.deps(&[*x]).iter().any(|d| sks.contains(d)))) {
            let msg: Vec<T> = h.iter().copied().filter(|x| r.it.t.deps(&[*x]).iter().any(|d| sks.contains(d))).collect();
            for m in msg { for j in 0..8 { let b = bit_of(&mut r.it.t, m, j, &mut bm); bitsof.push(b) } }
        }
        let t = &r.it.t;
        let mut g = Ring::default();
        let (sk, ct) = (big(t, &sk), big(t, &ct));
        let mut e = Eq { fs: &mut fs, memo: Default::default() };
        if sk.len() != wd * N || ct.len() != (wd + 1) * N || bitsof.len() != N { e.fs.viol("anchor", "decapsulation".into(), format!("{} coefficients of a secret key, {} of a ciphertext and {} message bits found ({root})", sk.len(), ct.len(), bitsof.len())) } else {
            let mut roots = vec![];
            for (c, b) in bitsof.iter().enumerate() {
                let x = t.chain(*b).into_iter().find(|r| t.w(*r) > 8 && t.range(*r).1 < 1 << 17 && t.range(*r).1 >= Q as u128 - 1);
                let Some(x) = x else { e.fs.viol("a message bit is set in the middle half", DEC.into(), format!("message bit {c} is not a function of one coefficient ({root})")); break };
                let mut bad = None;
                let (lo, hi) = t.range(x);
                let key = (t.shape(*b, x, &mut Default::default()), lo, hi);
                if !e.memo.contains_key(&((key.0 as u64) ^ (key.0 >> 64) as u64, (lo << 20 | hi) as u64)) {
                    for v in lo..=hi { let y = v as u64 % Q; let want = if (1922..=5759).contains(&y) { Some(1) } else if y <= 1919 || y >= 5762 { Some(0) } else { None }; let got = t.eval_at(*b, x, v, &mut Default::default()); if got.is_none() || want.is_some() && got != want { bad = Some(v); break } }
                    if bad.is_none() { e.memo.insert(((key.0 as u64) ^ (key.0 >> 64) as u64, (lo << 20 | hi) as u64), 1); }
                }
                e.fs.must("a message bit is set in the middle half", bad.is_none(), || DEC.into(), || format!("message bit {c} of the coefficient {} is wrong ({root})", bad.unwrap()));
                roots.push(x);
            }
            let (s, u, v) = (blocks(&mut g, t, &sk), blocks(&mut g, t, &ct[..wd * N]), blocks(&mut g, t, &ct[wd * N..]));
            let outs: Vec<Form> = roots.iter().map(|x| g.form(t, *x)).collect();
            // the transformed ciphertext: what the secret key is multiplied with
            let tr = partners(&mut g, &outs, &s);
            if let Some(tr) = e.got("decryption multiplies with the whole secret key", DEC, &root, (wd * N) as u64, tr) {
                let fw: Vec<Option<Fwd>> = (0..wd).map(|j| { let x = g.forward(&u[j], &tr[j]); e.got("a transform gives the values at the roots of x^256 + 1", NTT, &root, N as u64, x) }).collect();
                if let Some(f0) = fw[0].clone() {
                    e.fs.must("all transforms use the same points", fw.iter().flatten().all(|f| f.w == f0.w), || NTT.into(), || format!("two transforms differ ({root})"));
                    let tr: Vec<Vec<Form>> = (0..wd).map(|j| fw[j].as_ref().map(|f| f.norm(&tr[j])).unwrap_or_default()).collect();
                    let pairs = pair(&s, &tr);
                    let inv_ = g.inverse(&outs, &pairs, &f0.w);
                    if let Some((k, rest)) = e.got("decryption computes the product less the received value", DEC, &root, N as u64, inv_) {
                        let mut sign = None; let mut bad = None;
                        for c in 0..N { let want = &v[0][c]; let sgn = [1, Q - 1].into_iter().find(|k| Ring::scale(want, *k) == rest[c]); if sgn.is_none() || *sign.get_or_insert(sgn.unwrap()) != sgn.unwrap() { bad = Some(c); break } }
                        e.fs.must("decryption computes the product less the received value", bad.is_none(), || DEC.into(), || format!("coefficient {} of the decrypted polynomial does not contain the received one once ({root})", bad.unwrap_or(0)));
                        dec = Some((f0.w, k, (Q - sign.unwrap_or(Q - 1)) % Q));
                        e.fs.count("decryption equations", N as u64);
                    }
                }
            }
        }
    }
    let Some((w0, kd, against)) = dec else { return fs };
    let (mut us, mut fk, mut fe, mut kv) = (vec![], vec![], vec![], vec![]);
    let mut noises: Vec<(Findings, ())> = vec![];
    // key generation
    if let Some(mut r) = start(p, w, "generate", &[1], &mut fs) {
        let (pk, sk) = (r.part(0), r.part(1));
        let root = r.root.clone();
        let t = &r.it.t;
        let mut g = Ring::default();
        let mut memo = Default::default();
        let public: FxHashSet<T> = pk.iter().copied().filter(|x| t.w(*x) == 8).collect();
        let is_pub = |s: T| t.app_name(s).unwrap().1.iter().all(|x| t.c(*x).is_some() || public.contains(x));
        let (mut vec_, mut mat) = (vec![], vec![]);
        for x in big(t, &pk) { let s = kyber::streams(t, x, &mut memo); if !s.is_empty() && s.iter().all(|s| is_pub(*s)) { mat.push(x) } else { vec_.push(x) } }
        let sk = big(t, &sk);
        let mut e = Eq { fs: &mut fs, memo: Default::default() };
        if sk.len() != wd * N || vec_.len() != wd * N || mat.len() != wd * wd * N { e.fs.viol("anchor", "key generation".into(), format!("{} secret, {} public coefficients and {} matrix entries found ({root})", sk.len(), vec_.len(), mat.len())) } else {
            let vals = round_all(e.fs, t, &vec_, KEY, &root, &mut seen);
            let (s, a) = (blocks(&mut g, t, &sk), blocks(&mut g, t, &mat));
            let mut ns = Noise { polys: vec![] };
            for j in 0..wd {
                let b = g.noise_base(t, &s[j][0]);
                let Some(b) = e.got("a transform gives the values at the roots of x^256 + 1", KEY, &root, N as u64, b) else { continue };
                let f = g.forward(&b, &s[j]);
                let Some(f) = e.got("a transform gives the values at the roots of x^256 + 1", KEY, &root, N as u64, f) else { continue };
                e.fs.must("all transforms use the same points", f.w == w0, || KEY.into(), || format!("the transform of the secret differs from that of a received ciphertext ({root})"));
                us.extend(f.u);
                ns.polys.push((format!("secret polynomial {j}"), b));
            }
            if vals.len() == wd * N {
                for i in 0..wd {
                    let o: Vec<Form> = vals[i * N..(i + 1) * N].iter().map(|x| g.form(t, *x)).collect();
                    let pairs = pair(&a[i * wd..(i + 1) * wd], &s);
                    let x = g.inverse(&o, &pairs, &w0);
                    if let Some((k, rest)) = e.got("the public vector is the product of matrix and secret plus noise", KEY, &root, N as u64, x) { fk.push(k); ns.polys.push((format!("error polynomial {i} of a key"), rest)); e.fs.count("key equations", N as u64) }
                }
            }
            let mut nf = Findings::default();
            check_noise(&mut nf, &g, t, &ns, eta, &root);
            noises.push((nf, ()));
        }
    }
    // encapsulation
    if let Some(mut r) = start(p, w, "sealed", &[2, 0, 0], &mut fs) {
        let (ct, pk) = (r.part(0), r.part(1));
        let root = r.root.clone();
        let t = &r.it.t;
        let mut g = Ring::default();
        let mut memo = Default::default();
        let (mut vec_, mut mat) = (vec![], vec![]);
        for x in big(t, &pk) { if kyber::streams(t, x, &mut memo).is_empty() { vec_.push(x) } else { mat.push(x) } }
        let ct = big(t, &ct);
        let mut e = Eq { fs: &mut fs, memo: Default::default() };
        if vec_.len() != wd * N || mat.len() != wd * wd * N || ct.len() != (wd + 1) * N { e.fs.viol("anchor", "encapsulation".into(), format!("{} public coefficients, {} matrix entries and {} of a ciphertext found ({root})", vec_.len(), mat.len(), ct.len())) } else {
            let vals = round_all(e.fs, t, &ct, ENC, &root, &mut seen);
            let (b, a) = (blocks(&mut g, t, &vec_), blocks(&mut g, t, &mat));
            let mut ns = Noise { polys: vec![] };
            if vals.len() == (wd + 1) * N {
                let o = blocks(&mut g, t, &vals);

                // the transformed blinding vector: what the first column is multiplied with
                let col: Vec<Vec<Form>> = (0..wd).map(|j| a[j * wd].clone()).collect();
                let x = partners(&mut g, &o[0], &col);
                if let Some(mut bl) = e.got("encapsulation multiplies with the whole matrix", ENC, &root, (wd * N) as u64, x) {
                    for j in 0..wd {
                        let bs = g.noise_base(t, &bl[j][0]);
                        let Some(bs) = e.got("a transform gives the values at the roots of x^256 + 1", ENC, &root, N as u64, bs) else { continue };
                        let f = g.forward(&bs, &bl[j]);
                        let Some(f) = e.got("a transform gives the values at the roots of x^256 + 1", ENC, &root, N as u64, f) else { continue };
                        e.fs.must("all transforms use the same points", f.w == w0, || ENC.into(), || format!("the transform of the blinding vector differs from that of a received ciphertext ({root})"));
                        bl[j] = f.norm(&bl[j]);
                        ns.polys.push((format!("blinding polynomial {j}"), bs));
                    }
                    for i in 0..wd {
                        let col: Vec<Vec<Form>> = (0..wd).map(|j| a[j * wd + i].clone()).collect();
                        let pairs = pair(&col, &bl);
                        let x = g.inverse(&o[i], &pairs, &w0);
                        if let Some((k, rest)) = e.got("the ciphertext vector is the product of transposed matrix and blinding plus noise", ENC, &root, N as u64, x) { fe.push(k); ns.polys.push((format!("error polynomial {i} of a ciphertext"), rest)); e.fs.count("ciphertext equations", N as u64) }
                    }
                    // the hiding value
                    let x = partners(&mut g, &o[wd], &bl);
                    if let Some(mut tp) = e.got("the hiding value is made with the whole key", ENC, &root, (wd * N) as u64, x) {
                        for j in 0..wd { let f = g.forward(&b[j], &tp[j]); if let Some(f) = e.got("a transform gives the values at the roots of x^256 + 1", ENC, &root, N as u64, f) { tp[j] = f.norm(&tp[j]); e.fs.must("all transforms use the same points", f.w == w0, || ENC.into(), || format!("the transform of the public key differs from that of a received ciphertext ({root})")) } }
                        let pairs = pair(&tp, &bl);
                        let x = g.inverse(&o[wd], &pairs, &w0);
                        if let Some((k, rest)) = e.got("the hidden message is the product of key and blinding plus noise plus message", ENC, &root, N as u64, x) {
                            kv.push(k);
                            let (mut no, mut bad) = (vec![], None); let mut msgs: BTreeSet<u32> = BTreeSet::new();
                            for (c, f) in rest.iter().enumerate() {
                                let (m, n): (Vec<_>, Vec<_>) = f.1.iter().copied().partition(|e: &(u32, u32)| e.1 as u64 == (Q - 1) / 2 || e.1 as u64 == (Q + 1) / 2);
                                let okm = m.len() == 1 && match &g.monos[m[0].0 as usize] { M::Bit(x, i) => match *t.k(*x) { K::Sel(_, k) => k as usize * 8 + *i as usize == c, _ => true }, _ => false };
                                if !okm { bad.get_or_insert(c); } else { msgs.insert(m[0].0); }
                                no.push(Rc::new((f.0, n)));
                            }
                            e.fs.must("every message bit adds half of q to its coefficient", bad.is_none() && msgs.len() == N, || ENC.into(), || format!("coefficient {} of the hidden message does not carry message bit {} as half of q ({root})", bad.unwrap_or(0), bad.unwrap_or(0)));
                            e.fs.ok("every message bit adds half of q to its coefficient", N as u64);
                            ns.polys.push(("error polynomial of the hidden message".into(), no));
                            e.fs.count("ciphertext equations", N as u64);
                        }
                    }
                }
            }
            let mut nf = Findings::default();
            check_noise(&mut nf, &g, t, &ns, eta, &root);
            nf.must("noise polynomials", ns.polys.len() == 2 * wd + 1, || ENC.into(), || format!("{} of {} noise polynomials found ({root})", ns.polys.len(), 2 * wd + 1));
            noises.push((nf, ()));
        }
    }
    // the factors: errors are not amplified, and what is added in encryption is taken away in decryption
    let one = |v: &[u64]| v.first().copied().filter(|x| v.iter().all(|y| y == x));
    match (one(&us), one(&fk), one(&fe), one(&kv)) {
        (Some(us), Some(fk), Some(fe), Some(kv)) => {
            let unit = |x: u64| x == 1 || x == Q - 1;
            fs.must("products are those of the ring", unit(kv), || ENC.into(), || format!("the product of key and blinding has the factor {kv} ({w})"));
            fs.must("products are those of the ring", unit(kd * us % Q), || DEC.into(), || format!("the product of secret and ciphertext has the factor {} ({w})", kd * us % Q));
            fs.must("decryption takes away what encryption added", kd * fe % Q == against * (kv * fk % Q) % Q, || DEC.into(), || format!("the products of encryption and decryption have the factors {} and {} ({w})", kv * fk % Q, kd * fe % Q));
        }
        x => fs.viol("one factor for all products", KEY.into(), format!("the factors of the products differ ({w}): {x:?} known")),
    }
    if which == 7 { fs } else {
        // what makes the analysis incomplete makes this one incomplete, too
        out.viol.extend(fs.viol.iter().cloned());
        out.funs = fs.funs.clone();
        for (n, _) in noises { for (k, c) in n.rules { out.ok(&k, c) } out.viol.extend(n.viol); for (k, c) in n.counts { out.count(&k, c) } }
        out
    }
}
/// what each of these values is multiplied with in the outputs
fn partners(g: &mut Ring, outs: &[Form], xs: &[Vec<Form>]) -> Result<Vec<Vec<Form>>, String> {
    let Some(o) = outs.first() else { return Err("there is no result".into()) };
    let mut by: FxHashMap<u32, Vec<u32>> = Default::default();
    for (m, _) in &o.1 { if let M::Prod(a, b) = g.monos[*m as usize] { by.entry(a).or_default().push(b); if a != b { by.entry(b).or_default().push(a) } } }
    let mut out = vec![];
    for (j, p) in xs.iter().enumerate() {
        let mut v = vec![];
        for (k, x) in p.iter().enumerate() {
            let (i, _) = g.monic(x);
            match by.get(&i).map(|v| &v[..]) { Some([y]) => v.push(g.byid[*y as usize].clone()), Some(_) => return Err(format!("value {k} of polynomial {j} is multiplied with more than one value")), None => return Err(format!("value {k} of polynomial {j} is multiplied with nothing")) }
        }
        out.push(v);
    }
    Ok(out)
}
pub fn k07(dir: &str, r: &mut Report) {
    r.what = "Every value of key generation, encapsulation and decapsulation at widths 2, 3, 4, over unknown seeds, keys and ciphertexts, read as a linear form modulo q (an exact abstraction: sums, differences, multiples, shifts of values known to be divisible by 2^18, tables over one value; an operation that may leave its type is not read at all). Rules: what a transformed polynomial holds are its values at the 256 roots of x^256+1; the inverse transform of a sum of products has exactly the coefficients of the product in the ring, for every coefficient and every pair of values; the rest of an equation is noise alone, the message at half of q, or the received value; the factors of the products in the three operations cancel; each rounding, tried for every value the operand can have, moves it by at most half a step; each message bit is set exactly in the middle half.".into();
    r.level = "proof".into();
    run(dir, r, 7);
    for (w, n) in [("decryption equations", 768), ("key equations", 9 * 256), ("ciphertext equations", 12 * 256)] { let k = r.counted(w); r.floor(w, k, n) }
}
pub fn k08(dir: &str, r: &mut Report) {
    r.what = "The noise that K07's equations leave over, and the polynomials behind the transformed secret and blinding vectors, as sums of single bits of their streams over the integers. Rules: every coefficient adds eta bits and subtracts eta others (5, 4, 3 for the widths 2, 3, 4), and no bit of a stream is used twice in a polynomial, so that coefficients are independent.".into();
    r.level = "proof".into();
    run(dir, r, 8);
    let k = r.counted("noise coefficients"); r.floor("noise coefficients", k, (4 + 6 + 8 + 5 + 7 + 9) * 256);
}
fn run(dir: &str, r: &mut Report, which: u8) {
    r.trusted = kyber::trusted();
    let p = kyber::program(dir);
    let jobs: Vec<kyber::Job> = [("w4", 4usize), ("w3", 3), ("w2", 2)].into_iter().map(|(w, d)| -> kyber::Job { Box::new(move |p| width(w, d, p, which)) }).collect();
    kyber::run_jobs(p, jobs, r);
}
