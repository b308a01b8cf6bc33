//! Meaning of the primitives under the session layer: the key encapsulation of vru-kyber (whose own checks are
//! K01-K06), the group of curve25519, base64 and the text formatting of std.
//! Scalars are polynomials over unknown scalars, points are linear combinations of unknown points, both in a
//! canonical form, so that equal group elements have equal value numbers.
use crate::interp::*;
use crate::models::*;
use crate::term::*;
use ir::*;
use std::collections::BTreeMap;
use std::rc::Rc;

pub fn install(it: &mut Interp) {
    it.hide = vec!["vru_kyber"];
    for m in [kem as fn(&mut Interp, &mut State, FnId, &[Val]) -> M, group, toy, secp, base64, text, constructor] { it.models.push(Rc::new(m)) }
}
fn arg(it: &mut Interp, st: &State, fun: &Func, a: &[Val], i: usize) -> Val { match it.pointee(fun.args[i]) { Some(to) => deref(it, st, &a[i], to), None => a[i].clone() } }
fn arg_ty(it: &Interp, fun: &Func, i: usize) -> TyId { it.pointee(fun.args[i]).unwrap_or(fun.args[i]) }
fn out_bytes(it: &mut Interp, t: T, n: u64) -> Val { let v: Vec<Val> = (0..n as u32).map(|i| Val::T(it.t.sel(t, i, 8))).collect(); Val::Agg(Rc::new(v)) }
/// the term all of whose components 0.. these bytes are
pub fn whole(it: &Interp, b: &[T], name: &str) -> Option<T> {
    let K::Sel(s, 0) = it.t.k(*b.first()?) else { return None };
    let (n, _) = it.t.app_name(*s)?;
    if n != name { return None }
    for (i, x) in b.iter().enumerate() { match it.t.k(*x) { K::Sel(r, j) if r == s && *j as usize == i => {} _ => return None } }
    Some(*s)
}
// ---------------------------------------------------------------- key encapsulation
pub const KEM_LINE: &str = "kyber:line:";
fn kem(it: &mut Interp, st: &mut State, f: FnId, a: &[Val]) -> M {
    let p = it.p; let fun = &p.fns[f as usize];
    if fun.krate != "vru_kyber" { return M::No }
    let last = fun.path.rsplit("::").next().unwrap_or("").to_string();
    let size = |it: &Interp, t: TyId| it.p.tys[t as usize].size.unwrap_or(0);
    match last.as_str() {
        "generate_pair" => {
            let s = bytes(it, st, &a[0], fun.args[0]);
            if s.len() != 64 { it.lose("seed of a key pair"); return M::No }
            let pk = it.t.app("kyber:pk", &s[..32]); let sk = it.t.app("kyber:sk", &s[..32]);
            let rej = Val::Agg(Rc::new(s[32..].iter().map(|x| Val::T(*x)).collect()));
            M::Ret(Val::Agg(Rc::new(vec![Val::T(pk), Val::Agg(Rc::new(vec![Val::T(sk), rej]))])))
        }
        "encapsulate" if fun.args.len() == 3 => {
            let pkv = arg(it, st, fun, a, 1); let pk = it.as_t(&pkv);
            let mut v = vec![pk]; v.extend(bytes(it, st, &a[0], fun.args[0])); v.extend(bytes(it, st, &a[2], fun.args[2]));
            if v.len() != 65 { it.lose("arguments of an encapsulation") }
            let e = it.t.app("kyber:e", &v);
            it.event(st, "encapsulate", v);
            let ct = it.t.app("kyber:ct", &[e]); let ss = it.t.app("kyber:ss", &[e]);
            let ssv = out_bytes(it, ss, 32);
            M::Ret(Val::Agg(Rc::new(vec![Val::T(ct), ssv])))
        }
        "decapsulate" if fun.args.len() == 4 => {
            let (sv, pv, cv) = (arg(it, st, fun, a, 0), arg(it, st, fun, a, 1), arg(it, st, fun, a, 3));
            let sct = { let t = arg_ty(it, fun, 0); it.ct(t) };
            let sk = it.flat_v(st, &sv, sct);
            let (pk, ct) = (it.as_t(&pv), it.as_t(&cv));
            let h = bytes(it, st, &a[2], fun.args[2]);
            let e = match it.t.app_name(ct) { Some(("kyber:ct", x)) => Some(x[0]), _ => None };
            let ss = e.and_then(|e| {
                let (_, x) = it.t.app_name(e)?; let x = x.to_vec();
                let (_, s) = it.t.app_name(pk).filter(|(n, _)| *n == "kyber:pk")?;
                let (_, s2) = it.t.app_name(*sk.first()?).filter(|(n, _)| *n == "kyber:sk")?;
                (x[0] == pk && x[33..] == h[..] && s == s2).then_some(e)
            });
            let mut v = sk.clone(); v.push(pk); v.extend(h); v.push(ct);
            it.event(st, "decapsulate", v.clone());
            let r = match ss { Some(e) => it.t.app("kyber:ss", &[e]), None => it.t.app("kyber:dec", &v) };
            M::Ret(out_bytes(it, r, 32))
        }
        "clone_line" => {
            let v = arg(it, st, fun, a, 0); let x = it.as_t(&v); let t = arg_ty(it, fun, 0); let k = short(&tyname(it, t));
            if let Some((n, b)) = it.t.app_name(x) { if n == format!("kyber:from:{k}") { return M::Ret(Val::Agg(Rc::new(b.iter().map(|t| Val::T(*t)).collect()))) } }
            let l = it.t.app(&format!("{KEM_LINE}{k}"), &[x]);
            let n = size(it, fun.ret);
            M::Ret(out_bytes(it, l, n))
        }
        "clone_array" | "try_clone_array" => {
            let b = bytes(it, st, &a[0], fun.args[0]);
            let to = if last == "clone_array" { fun.ret } else { match &p.tys[fun.ret as usize].kind { TyKind::Adt { args, .. } => args[0], _ => fun.ret } };
            let k = short(&tyname(it, to));
            let x = match whole(it, &b, &format!("{KEM_LINE}{k}")) { Some(l) => it.t.app_name(l).unwrap().1[0], None => it.t.app(&format!("kyber:from:{k}"), &b) };
            let ct = it.ct(fun.ret);
            M::Ret(if last == "clone_array" { Val::T(x) } else { variant(it, ct, 0, vec![Val::T(x)]) })
        }
        "clone" => M::Ret(arg(it, st, fun, a, 0)),
        _ => M::No,
    }
}
// ---------------------------------------------------------------- scalars and points
type Poly = BTreeMap<Vec<T>, i128>;
pub fn poly(it: &Interp, t: T) -> Poly {
    let mut r = Poly::new();
    match it.t.app_name(t) {
        Some(("sc", v)) => { let mut i = 0; while i < v.len() { let c = it.t.c(v[i]).unwrap() as i128; let n = it.t.c(v[i + 1]).unwrap() as usize; r.insert(v[i + 2..i + 2 + n].to_vec(), c); i += 2 + n } }
        _ => { r.insert(vec![t], 1); }
    }
    r
}
pub fn unpoly(it: &mut Interp, p: &Poly) -> T {
    if p.len() == 1 { let (m, c) = p.iter().next().unwrap(); if *c == 1 && m.len() == 1 { return m[0] } }
    let mut v = vec![];
    for (m, c) in p { if *c != 0 { v.push(it.t.konst(*c as u128, 128)); v.push(it.us(m.len() as u64)); v.extend(m) } }
    it.t.app("sc", &v)
}
fn padd(a: &Poly, b: &Poly, k: i128) -> Poly { let mut r = a.clone(); for (m, c) in b { *r.entry(m.clone()).or_insert(0) += c * k } r.retain(|_, c| *c != 0); r }
fn pmul(a: &Poly, b: &Poly) -> Poly { let mut r = Poly::new(); for (m, c) in a { for (n, d) in b { let mut k = m.clone(); k.extend(n); k.sort(); *r.entry(k).or_insert(0) += c * d } } r.retain(|_, c| *c != 0); r }
type Lin = BTreeMap<T, Poly>;
pub fn lin(it: &Interp, t: T) -> Lin {
    let mut r = Lin::new();
    match it.t.app_name(t) {
        Some(("pt", v)) => for x in v.chunks(2) { r.insert(x[0], poly(it, x[1])); },
        _ => { r.insert(t, Poly::from([(vec![], 1)])); }
    }
    r
}
pub fn unlin(it: &mut Interp, l: &Lin) -> T {
    let one = Poly::from([(vec![], 1)]);
    let l: Vec<_> = l.iter().filter(|(_, p)| !p.is_empty()).collect();
    if l.len() == 1 && *l[0].1 == one { return *l[0].0 }
    let mut v = vec![];
    for (b, p) in l { v.push(*b); let q = unpoly(it, p); v.push(q) }
    it.t.app("pt", &v)
}
/// constants of the group: the base point, the neutral element and small scalars
pub fn constant(it: &mut Interp, c: &Const, t: TyId) -> Option<Val> {
    let Const::Agg(..) = c else { return None };
    let TyKind::Adt { krate, .. } = &it.p.tys[t as usize].kind else { return None };
    if krate != "curve25519_dalek" { return None }
    fn ints(c: &Const, o: &mut Vec<u128>) -> bool { match c { Const::Int(x) => { o.push(*x); true } Const::Agg(_, v) | Const::Arr(v) => v.iter().all(|c| ints(c, o)), Const::Bytes(b) => { o.extend(b.iter().map(|x| *x as u128)); true } Const::Zst => true, _ => false } }
    let mut v = vec![];
    match class(it, t) {
        Cl::Point => {
            if !ints(c, &mut v) || v.len() != 20 || v[10..15] != [1, 0, 0, 0, 0] { return None }
            // coordinates of RFC 8032 in radix 2^51
            let b: [u128; 10] = [1738742601995546, 1146398526822698, 2070867633025821, 562264141797630, 587772402128613, 1801439850948184, 1351079888211148, 450359962737049, 900719925474099, 1801439850948198];
            if v[..10] == b { let t = base(it); return Some(Val::T(t)) }
            if v[..10] == [0, 0, 0, 0, 0, 1, 0, 0, 0, 0] { let t = unlin(it, &Lin::new()); return Some(Val::T(t)) }
            None
        }
        Cl::Scalar => {
            if !ints(c, &mut v) || v.len() != 32 || v[15..].iter().any(|x| *x != 0) { return None }
            let n = v[..15].iter().rev().fold(0i128, |a, x| a << 8 | *x as i128);
            let p = if n == 0 { Poly::new() } else { Poly::from([(vec![], n)]) };
            let t = unpoly(it, &p); Some(Val::T(t))
        }
        _ => None,
    }
}
pub fn base(it: &mut Interp) -> T { it.t.app("B", &[]) }
#[derive(PartialEq, Clone, Copy, Debug)]
enum Cl { Point, Scalar, Table, Comp, Mont, Other }
fn class(it: &Interp, t: TyId) -> Cl {
    let t = it.pointee(t).unwrap_or(t);
    match short(&tyname(it, t)).as_str() { "EdwardsPoint" => Cl::Point, "Scalar" => Cl::Scalar, "EdwardsBasepointTable" => Cl::Table, "CompressedEdwardsY" => Cl::Comp, "MontgomeryPoint" => Cl::Mont, _ => Cl::Other }
}
fn point(it: &mut Interp, v: &Val, c: Cl) -> T { if c == Cl::Table { base(it) } else { it.as_t(v) } }
/// the encoding of a point
pub const POINT: &str = "point";
fn group(it: &mut Interp, st: &mut State, f: FnId, a: &[Val]) -> M {
    let p = it.p; let fun = &p.fns[f as usize];
    if fun.krate != "curve25519_dalek" { return M::No }
    let last = fun.path.rsplit("::").next().unwrap_or("").to_string();
    let cls: Vec<Cl> = fun.args.iter().map(|t| class(it, *t)).collect();
    let ct = it.ct(fun.ret);
    let val = |it: &mut Interp, st: &State, i: usize| -> Val { if class(it, fun.args[i]) == Cl::Table { Val::Undef } else { arg(it, st, fun, a, i) } };
    match (last.as_str(), cls.as_slice()) {
        ("mul", [p @ (Cl::Point | Cl::Table), Cl::Scalar]) | ("mul", [Cl::Scalar, p @ (Cl::Point | Cl::Table)]) => {
            let (i, j) = if cls[0] == Cl::Scalar { (1, 0) } else { (0, 1) };
            let (x, s) = (val(it, st, i), val(it, st, j)); let (x, s) = (point(it, &x, *p), it.as_t(&s));
            let k = poly(it, s);
            let l: Lin = lin(it, x).into_iter().map(|(b, q)| (b, pmul(&q, &k))).collect();
            M::Ret(Val::T(unlin(it, &l)))
        }
        ("add" | "sub", [Cl::Point, Cl::Point]) => {
            let (x, y) = (val(it, st, 0), val(it, st, 1)); let (x, y) = (it.as_t(&x), it.as_t(&y));
            let (mut l, m) = (lin(it, x), lin(it, y)); let k = if last == "add" { 1 } else { -1 };
            for (b, q) in m { let e = l.remove(&b).unwrap_or_default(); l.insert(b, padd(&e, &q, k)); }
            M::Ret(Val::T(unlin(it, &l)))
        }
        ("neg", [Cl::Point]) => { let x = val(it, st, 0); let x = it.as_t(&x); let l: Lin = lin(it, x).into_iter().map(|(b, q)| (b, padd(&Poly::new(), &q, -1))).collect(); M::Ret(Val::T(unlin(it, &l))) }
        ("add" | "sub" | "mul", [Cl::Scalar, Cl::Scalar]) => {
            let (x, y) = (val(it, st, 0), val(it, st, 1)); let (x, y) = (it.as_t(&x), it.as_t(&y));
            let (x, y) = (poly(it, x), poly(it, y));
            let r = match last.as_str() { "add" => padd(&x, &y, 1), "sub" => padd(&x, &y, -1), _ => pmul(&x, &y) };
            M::Ret(Val::T(unpoly(it, &r)))
        }
        ("neg", [Cl::Scalar]) => { let x = val(it, st, 0); let x = it.as_t(&x); let r = padd(&Poly::new(), &poly(it, x), -1); M::Ret(Val::T(unpoly(it, &r))) }
        ("eq" | "ne" | "ct_eq", [Cl::Scalar, Cl::Scalar] | [Cl::Point, Cl::Point]) => {
            let (x, y) = (val(it, st, 0), val(it, st, 1)); let (x, y) = (it.as_t(&x), it.as_t(&y));
            let c = if x == y { Terms::TRUE } else { let (lo, hi) = (x.min(y), x.max(y)); let e = it.t.app("same", &[lo, hi]); it.t.sel(e, 0, 1) };
            let c = if last == "ne" { it.t.not(c) } else { c };
            M::Ret(Val::T(if last == "ct_eq" { it.t.zext(c, 8) } else { c }))
        }
        ("one", []) => { let r = Poly::from([(vec![], 1)]); M::Ret(Val::T(unpoly(it, &r))) }
        ("zero", []) | ("default", []) if class(it, fun.ret) == Cl::Scalar => M::Ret(Val::T(unpoly(it, &Poly::new()))),
        ("identity", []) | ("default", []) if class(it, fun.ret) == Cl::Point => M::Ret(Val::T(unlin(it, &Lin::new()))),
        ("basepoint", [Cl::Table]) => M::Ret(Val::T(base(it))),
        ("clone", [Cl::Scalar | Cl::Point | Cl::Comp]) => M::Ret(val(it, st, 0)),
        ("from_bits", [_]) => {
            let mut b = bytes(it, st, &a[0], fun.args[0]);
            if b.len() == 32 { let m = it.t.konst(0x7f, 8); b[31] = it.t.bin(Op::And, b[31], m) }
            M::Ret(Val::T(match whole(it, &b, "scbytes") { Some(w) => it.t.app_name(w).unwrap().1[0], None => it.t.app("bits", &b) }))
        }
        ("from_bytes_mod_order" | "from_bytes_mod_order_wide", [_]) => { let b = bytes(it, st, &a[0], fun.args[0]); M::Ret(Val::T(match whole(it, &b, "scbytes") { Some(w) if b.len() == 32 => it.t.app_name(w).unwrap().1[0], _ => it.t.app("modorder", &b) })) }
        ("from_canonical_bytes", [_]) => {
            let b = bytes(it, st, &a[0], fun.args[0]);
            let (c, x) = match whole(it, &b, "scbytes") { Some(w) => (Terms::TRUE, it.t.app_name(w).unwrap().1[0]), None => { let k = it.t.app("canonical", &b); (it.t.sel(k, 0, 1), it.t.app("bits", &b)) } };
            let (y, n) = (variant(it, ct, 1, vec![Val::T(x)]), variant(it, ct, 0, vec![]));
            M::Ret(it.merge_ct(c, &y, &n, ct))
        }
        ("as_bytes" | "to_bytes", [Cl::Scalar]) => {
            let x = val(it, st, 0); let x = it.as_t(&x);
            let b: Vec<T> = match it.t.app_name(x) { Some(("bits", b)) => b.to_vec(), _ => { let e = it.t.app("scbytes", &[x]); (0..32).map(|i| if i == 31 { it.t.sel_r(e, 31, 8, 0, 0x7f) } else { it.t.sel(e, i, 8) }).collect() } };
            let v = Val::Agg(Rc::new(b.into_iter().map(Val::T).collect()));
            if last == "to_bytes" { return M::Ret(v) }
            let to = p.tys.get(fun.ret as usize).map(|_| arg_ret(it, fun)).unwrap(); let c = it.ct(to);
            M::Ret(it.new_ptr(st, v, c))
        }
        ("compress", [Cl::Point]) => { let x = val(it, st, 0); let x = it.as_t(&x); let e = it.t.app(POINT, &[x]); M::Ret(out_bytes(it, e, 32)) }
        ("as_bytes", [Cl::Comp | Cl::Mont]) => M::Ret(a[0].clone()),
        ("mul", [Cl::Mont, Cl::Scalar]) => {
            let mct = { let t = arg_ty(it, fun, 0); it.ct(t) };
            let (v, k) = (val(it, st, 0), val(it, st, 1)); let k = it.as_t(&k);
            let mut b = it.flat_v(st, &v, mct); b.push(k);
            let r = it.t.app("ladder", &b);
            M::Ret(out_bytes(it, r, 32))
        }
        ("to_montgomery", [Cl::Point]) => { let x = val(it, st, 0); let x = it.as_t(&x); let e = it.t.app("montgomery", &[x]); M::Ret(out_bytes(it, e, 32)) }
        ("to_bytes", [Cl::Comp]) => M::Ret(val(it, st, 0)),
        ("from_slice", [_]) if class(it, fun.ret) == Cl::Comp => {
            let b = bytes(it, st, &a[0], fun.args[0]);
            if b.len() != 32 { it.alarm(st, "panic:from_slice".into(), Terms::TRUE, "length of a compressed point".into()); return M::Diverge }
            M::Ret(Val::Agg(Rc::new(b.into_iter().map(Val::T).collect())))
        }
        ("decompress", [Cl::Comp]) => {
            let v = val(it, st, 0); let cct = { let t = arg_ty(it, fun, 0); it.ct(t) };
            let b = it.flat_v(st, &v, cct);
            let (c, x) = match whole(it, &b, POINT) { Some(w) if b.len() == 32 => (Terms::TRUE, it.t.app_name(w).unwrap().1[0]), _ => { let k = it.t.app("onCurve", &b); (it.t.sel(k, 0, 1), it.t.app("decoded", &b)) } };
            let (y, n) = (variant(it, ct, 1, vec![Val::T(x)]), variant(it, ct, 0, vec![]));
            M::Ret(it.merge_ct(c, &y, &n, ct))
        }
        _ => M::No,
    }
}
/// the group of the harness: every primitive is what its name says
fn toy(it: &mut Interp, st: &mut State, f: FnId, a: &[Val]) -> M {
    let p = it.p; let fun = &p.fns[f as usize];
    let Some(name) = fun.path.strip_prefix("racm::toy_").filter(|_| fun.krate == "wire") else { return M::No };
    let ct = it.ct(fun.ret);
    let ts: Vec<T> = (0..fun.args.len()).map(|i| { let v = arg(it, st, fun, a, i); match &v { Val::Agg(_) => NONE, _ => it.as_t(&v) } }).collect();
    let n = p.tys[fun.ret as usize].size.unwrap_or(0);
    M::Ret(match name {
        "base" => { let b = it.t.app("toyB", &[]); Val::T(b) }
        "mul" => { let k = poly(it, ts[1]); let l: Lin = lin(it, ts[0]).into_iter().map(|(b, q)| (b, pmul(&q, &k))).collect(); Val::T(unlin(it, &l)) }
        "add" => { let l = ladd(it, ts[0], ts[1], 1); Val::T(unlin(it, &l)) }
        "scalar_add" | "scalar_sub" | "scalar_mul" => {
            let (x, y) = (poly(it, ts[0]), poly(it, ts[1]));
            let r = match name { "scalar_add" => padd(&x, &y, 1), "scalar_sub" => padd(&x, &y, -1), _ => pmul(&x, &y) };
            Val::T(unpoly(it, &r))
        }
        "x" | "point_bytes" | "point_packed" | "scalar_bytes" => { let e = it.t.app(&format!("toy:{name}"), &[ts[0]]); out_bytes(it, e, n) }
        "point_of" | "point_unpacked" | "scalar_of" => {
            let b = bytes(it, st, &a[0], fun.args[0]);
            let from = match name { "point_of" => "toy:point_bytes", "point_unpacked" => "toy:point_packed", _ => "toy:scalar_bytes" };
            let (c, x) = match whole(it, &b, from) { Some(w) => (Terms::TRUE, it.t.app_name(w).unwrap().1[0]), None => { let k = it.t.app(&format!("valid {from}"), &b); (it.t.sel(k, 0, 1), it.t.app(&format!("un{from}"), &b)) } };
            let (y, n) = (variant(it, ct, 1, vec![Val::T(x)]), variant(it, ct, 0, vec![]));
            it.merge_ct(c, &y, &n, ct)
        }
        _ => return M::No,
    })
}
fn ladd(it: &Interp, x: T, y: T, k: i128) -> Lin { let (mut l, m) = (lin(it, x), lin(it, y)); for (b, q) in m { let e = l.remove(&b).unwrap_or_default(); l.insert(b, padd(&e, &q, k)); } l }
/// encoding of a point: both coordinates, and the first byte of the short form
const XY: &str = "secp:xy";
const SIGN: u32 = 64;
const BASE_XY: &str = "79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8";
fn secp(it: &mut Interp, st: &mut State, f: FnId, a: &[Val]) -> M {
    let p = it.p; let fun = &p.fns[f as usize];
    if fun.krate != "secp256k1" { return M::No }
    let last = fun.path.rsplit("::").next().unwrap_or("").to_string();
    let of = ["SecretKey", "PublicKey", "Signature"].into_iter().find(|n| fun.path.contains(&format!("secp256k1::{n}")) || fun.path.contains(&format!("secp256k1::key::{n}"))).unwrap_or("");
    let ct = it.ct(fun.ret);
    let scalar = |it: &mut Interp, b: &[T]| -> (T, T) { match whole(it, b, "secp:scalar").filter(|_| b.len() == 32) { Some(w) => (Terms::TRUE, it.t.app_name(w).unwrap().1[0]), None => { let k = it.t.app("secp:valid", b); (it.t.sel(k, 0, 1), it.t.app("secp:bits", b)) } } };
    let scalar_bytes = |it: &mut Interp, x: T| -> Vec<T> { match it.t.app_name(x) { Some(("secp:bits", b)) => b.to_vec(), _ => { let e = it.t.app("secp:scalar", &[x]); (0..32).map(|i| it.t.sel(e, i, 8)).collect() } } };
    let xy = |it: &mut Interp, x: T| -> Vec<T> { match it.t.app_name(x) { Some(("secp:decoded", b)) if b.len() == 65 => b[1..].to_vec(), Some(("secpB", _)) => (0..64).map(|i| { let k = u8::from_str_radix(&BASE_XY[2 * i..2 * i + 2], 16).unwrap(); it.t.konst(k as u128, 8) }).collect(), _ => { let e = it.t.app(XY, &[x]); (0..64).map(|i| it.t.sel(e, i, 8)).collect() } } };
    // an unknown scalar and a single multiple of a point by one are not zero
    let single = |it: &Interp, q: &Poly| q.len() == 1 && q.iter().all(|(m, c)| *c == 1 && m.iter().all(|t| it.t.app_name(*t).map_or(true, |n| n.0 != "sc")));
    let done = |it: &mut Interp, c: T, e: &str, of: &[T], y: Val| { let et = match &p.tys[fun.ret as usize].kind { TyKind::Adt { args, .. } => args[1], _ => fun.ret }; let ect = it.ct(et); let e = it.t.app(e, of); let e = it.fresh(ect, e); let e = it.expand(&e, ect); let (y, z) = (variant(it, ct, 0, vec![y]), variant(it, ct, 1, vec![e])); it.merge_ct(c, &y, &z, ct) };
    M::Ret(match (of, last.as_str()) {
        (_, "clone") => arg(it, st, fun, a, 0),
        (_, "verification_only" | "new" | "signing_only" | "without_caps") if fun.args.is_empty() => { let t = it.t.app("secp:context", &[]); Val::T(t) }
        ("SecretKey", "from_slice") => { let b = bytes(it, st, &a[0], fun.args[0]); let (c, x) = if b.len() == 32 { scalar(it, &b) } else { let x = it.t.app("secp:bits", &b); (Terms::FALSE, x) }; done(it, c, "secp:why", &b, Val::T(x)) }
        ("SecretKey", "index" | "as_ref") if fun.args.len() <= 2 => {
            let x = arg(it, st, fun, a, 0); let x = it.as_t(&x); let b = scalar_bytes(it, x);
            let byte = it.mk(C::Sc(8, false)); it.new_slice(st, b.into_iter().map(Val::T).collect(), byte)
        }
        ("SecretKey", "add_assign" | "mul_assign" | "tweak_add_assign") => {
            let x = arg(it, st, fun, a, 0); let x = it.as_t(&x);
            let b = bytes(it, st, &a[1], fun.args[1]);
            let (c, y) = scalar(it, &b);
            let (q, r) = (poly(it, x), poly(it, y)); let r = if last == "mul_assign" { pmul(&q, &r) } else { padd(&q, &r, 1) };
            let z = unpoly(it, &r);
            let nz = if r.is_empty() { Terms::FALSE } else if last == "mul_assign" || single(it, &r) { Terms::TRUE } else { let k = it.t.app("secp:nonzero", &[z]); it.t.sel(k, 0, 1) };
            let c = it.t.and(&[c, nz]);
            let to = arg_ty(it, fun, 0); it.event(st, "fallible", vec![c]); store(it, st, &a[0], to, Val::T(z));
            done(it, c, "secp:why", &[x, y], Val::Undef)
        }
        ("SecretKey", "negate_assign") => { let x = arg(it, st, fun, a, 0); let x = it.as_t(&x); let r = padd(&Poly::new(), &poly(it, x), -1); let z = unpoly(it, &r); let to = arg_ty(it, fun, 0); store(it, st, &a[0], to, Val::T(z)); Val::Undef }
        ("PublicKey", "from_slice") => {
            let b = bytes(it, st, &a[0], fun.args[0]);
            let known: Option<String> = b.iter().map(|t| it.t.c(*t).map(|x| format!("{x:02x}"))).collect();
            let here = |it: &Interp, b: &[T], sign: Option<T>| -> Option<T> { let K::Sel(s, 0) = it.t.k(*b.first()?) else { return None }; let s = *s; if it.t.app_name(s)?.0 != XY { return None } for (i, x) in b.iter().enumerate() { if !matches!(it.t.k(*x), K::Sel(r, j) if *r == s && *j as usize == i) { return None } } if let Some(x) = sign { if !matches!(it.t.k(x), K::Sel(r, j) if *r == s && *j == SIGN) { return None } } Some(it.t.app_name(s)?.1[0]) };
            let hit = match b.len() {
                65 if known.as_deref() == Some(&format!("04{BASE_XY}")) => Some(it.t.app("secpB", &[])),
                65 if it.t.c(b[0]) == Some(4) => here(it, &b[1..], None),
                33 => here(it, &b[1..], Some(b[0])),
                _ => None,
            };
            let (c, x) = match hit { Some(x) => (Terms::TRUE, x), None => { let k = it.t.app("secp:onCurve", &b); (if b.len() == 65 || b.len() == 33 { it.t.sel(k, 0, 1) } else { Terms::FALSE }, it.t.app("secp:decoded", &b)) } };
            done(it, c, "secp:why", &b, Val::T(x))
        }
        ("PublicKey", "serialize" | "serialize_uncompressed") => {
            let x = arg(it, st, fun, a, 0); let x = it.as_t(&x);
            let mut b = if last == "serialize" { match it.t.app_name(x) { Some(("secp:decoded", b)) if b.len() == 33 => return M::Ret(Val::Agg(Rc::new(b.to_vec().into_iter().map(Val::T).collect()))), _ => {} } let e = it.t.app(XY, &[x]); vec![it.t.sel_r(e, SIGN, 8, 2, 3)] } else { vec![it.t.konst(4, 8)] };
            let c = xy(it, x); b.extend(&c[..if last == "serialize" { 32 } else { 64 }]);
            Val::Agg(Rc::new(b.into_iter().map(Val::T).collect()))
        }
        ("PublicKey", "combine") => {
            let (x, y) = (arg(it, st, fun, a, 0), arg(it, st, fun, a, 1)); let (x, y) = (it.as_t(&x), it.as_t(&y));
            let mut l = ladd(it, x, y, 1); l.retain(|_, q| !q.is_empty()); let z = unlin(it, &l);
            let c = if l.is_empty() { Terms::FALSE } else if l.len() == 1 && l.values().all(|q| single(it, q)) { Terms::TRUE } else { let k = it.t.app("secp:finite", &[z]); it.t.sel(k, 0, 1) };
            done(it, c, "secp:why", &[x, y], Val::T(z))
        }
        ("PublicKey", "mul_assign") => {
            let x = arg(it, st, fun, a, 0); let x = it.as_t(&x);
            let b = bytes(it, st, &a[2], fun.args[2]);
            let (c, y) = scalar(it, &b); let k = poly(it, y);
            let l: Lin = lin(it, x).into_iter().map(|(b, q)| (b, pmul(&q, &k))).collect();
            let z = unlin(it, &l); let to = arg_ty(it, fun, 0); it.event(st, "fallible", vec![c]); store(it, st, &a[0], to, Val::T(z));
            done(it, c, "secp:why", &[x, y], Val::Undef)
        }
        ("Signature", "from_compact") => { let b = bytes(it, st, &a[0], fun.args[0]); let (c, x) = match whole(it, &b, "secp:compact").filter(|_| b.len() == 64) { Some(w) => (Terms::TRUE, it.t.app_name(w).unwrap().1[0]), None => { let k = it.t.app("secp:pair", &b); (it.t.sel(k, 0, 1), it.t.app("secp:sig", &b)) } }; done(it, c, "secp:why", &b, Val::T(x)) }
        ("Signature", "serialize_compact") => { let x = arg(it, st, fun, a, 0); let x = it.as_t(&x); match it.t.app_name(x) { Some(("secp:sig", b)) if b.len() == 64 => { let b = b.to_vec(); Val::Agg(Rc::new(b.into_iter().map(Val::T).collect())) } _ => { let e = it.t.app("secp:compact", &[x]); out_bytes(it, e, 64) } } }
        _ => return M::No,
    })
}
fn arg_ret(it: &Interp, fun: &Func) -> TyId { it.pointee(fun.ret).unwrap_or(fun.ret) }
// ---------------------------------------------------------------- text
fn base64(it: &mut Interp, st: &mut State, f: FnId, a: &[Val]) -> M {
    let p = it.p; let fun = &p.fns[f as usize];
    if fun.krate != "base64" && fun.krate != "hex" { return M::No }
    let last = fun.path.rsplit("::").next().unwrap_or("");
    let byte = it.mk(C::Sc(8, false));
    // the text or bytes passed by value, reference or as an owned sequence
    let input = |it: &mut Interp, st: &State| -> Vec<T> {
        let ct = it.ct(fun.args[0]);
        match (&a[0], it.c(ct).clone()) {
            (Val::Ptr(_), _) => { let mut v = a[0].clone(); loop { let Val::Ptr(q) = &v else { it.lose("input of a text encoding"); return vec![] }; let c = it.ct_at(q); if matches!(it.c(c), C::Ptr) { v = it.read_p(st, q) } else { break } }
                if let Val::Ptr(q) = &v { let n = it.len_of(q); if it.t.c(n) == Some(0) { return vec![] } let c = it.ct_at(q); return it.flat_v(st, &v, c) } vec![] }
            _ => it.flat_v(st, &a[0], ct),
        }
    };
    let k = &fun.krate;
    match last {
        "encode" => {
            let b = input(it, st);
            let n = if k == "hex" { b.len() * 2 } else { (b.len() + 2) / 3 * 4 };
            let e = it.t.app(&format!("text:{k}"), &b);
            let v = (0..n as u32).map(|i| Val::T(it.t.sel(e, i, 8))).collect();
            M::Ret(it.new_slice(st, v, byte))
        }
        "decode" => {
            let b = input(it, st); let ct = it.ct(fun.ret);
            if let Some(w) = whole(it, &b, &format!("text:{k}")) {
                let x = it.t.app_name(w).unwrap().1.to_vec();
                if b.len() == if k == "hex" { x.len() * 2 } else { (x.len() + 2) / 3 * 4 } { let v = it.new_slice(st, x.into_iter().map(Val::T).collect(), byte); return M::Ret(variant(it, ct, 0, vec![v])) }
            }
            let d = it.t.app(&format!("untext:{k}"), &b);
            let c = it.t.sel(d, OPENED, 1);
            let n = it.decoded;
            let v = (0..n as u32).map(|i| Val::T(it.t.sel(d, i, 8))).collect();
            let v = it.new_slice(st, v, byte);
            let et = match &p.tys[fun.ret as usize].kind { TyKind::Adt { args, .. } => args[1], _ => fun.ret };
            let ect = it.ct(et); let et = it.t.app("why", &[d]); let e = it.fresh(ect, et); let e = it.expand(&e, ect);
            let (y, z) = (variant(it, ct, 0, vec![v]), variant(it, ct, 1, vec![e]));
            M::Ret(it.merge_ct(c, &y, &z, ct))
        }
        _ => M::No,
    }
}
/// formatting: what is written to a formatter becomes an event
fn text(it: &mut Interp, st: &mut State, f: FnId, a: &[Val]) -> M {
    let p = it.p; let fun = &p.fns[f as usize];
    let path = fun.path.as_str();
    if !(path.contains("fmt::") && (fun.krate == "core" || fun.krate == "alloc")) { return M::No }
    let last = path.rsplit("::").next().unwrap_or("");
    let ct = it.ct(fun.ret);
    let strings = |it: &Interp, t: TyId| { let mut t = t; while let Some(x) = it.pointee(t) { t = x } matches!(it.p.tys[t as usize].kind, TyKind::Str) || short(&tyname(it, t)) == "String" };
    fn content(it: &mut Interp, st: &State, v: &Val) -> Option<Vec<T>> {
        let mut v = v.clone();
        loop { let Val::Ptr(q) = &v else { return None }; let c = it.ct_at(q); if matches!(it.c(c), C::Ptr) { v = it.read_p(st, q) } else { break } }
        let Val::Ptr(q) = &v else { return None };
        let n = it.len_of(q); if it.t.c(n)? == 0 { return Some(vec![]) }
        let c = it.ct_at(q); Some(it.flat_v(st, &v, c))
    }
    let ok = |it: &mut Interp| variant(it, ct, 0, vec![Val::Undef]);
    match last {
        "new_display" if strings(it, fun.args[0]) => { let Some(b) = content(it, st, &a[0]) else { it.lose("displayed text"); return M::No }; let t = it.t.app("text", &b); M::Ret(Val::T(t)) }
        _ if last.starts_with("new_") && path.contains("rt::Argument") => { let t = opaque_text(it, st, fun, a); M::Ret(Val::T(t)) }
        "from_str" | "new_const" if path.contains("Arguments") => { let b = content(it, st, &a[0]).unwrap_or_default(); let t = it.t.app("text", &b); M::Ret(Val::T(t)) }
        "new" if path.contains("Arguments") => {
            let tpl: Vec<u8> = bytes(it, st, &a[0], fun.args[0]).into_iter().map(|t| it.t.c(t).unwrap_or(0) as u8).collect();
            let to = arg_ty(it, fun, 1); let v = deref(it, st, &a[1], to); let c = it.ct(to);
            let args = match it.expand(&v, c) { Val::Agg(x) => x.to_vec(), v => vec![v] };
            let mut out = vec![]; let (mut i, mut next) = (0, 0);
            while i < tpl.len() && tpl[i] != 0 {
                let b = tpl[i]; i += 1;
                let lit = |it: &mut Interp, out: &mut Vec<T>, i: usize, n: usize| for x in tpl.iter().skip(i).take(n) { let k = it.t.konst(*x as u128, 8); out.push(k) };
                if b < 0x80 { lit(it, &mut out, i, b as usize); i += b as usize }
                else if b == 0x80 { let n = tpl[i] as usize | (tpl[i + 1] as usize) << 8; i += 2; lit(it, &mut out, i, n); i += n }
                else {
                    if b & 7 != 0 { it.lose("formatting with a width") }
                    if b & 1 != 0 { i += 4 } if b & 2 != 0 { i += 2 } if b & 4 != 0 { i += 2 }
                    let k = if b & 8 != 0 { let k = tpl[i] as usize | (tpl[i + 1] as usize) << 8; i += 2; k } else { next };
                    next = k + 1;
                    let t = match args.get(k) { Some(v) => it.as_t(v), None => { it.lose("argument of a format"); continue } };
                    match it.t.app_name(t) { Some(("text", x)) => { let x = x.to_vec(); out.extend(x) } _ => out.push(t) }
                }
            }
            M::Ret(Val::T(it.t.app("text", &out)))
        }
        "write_fmt" | "write_str" | "pad" if path.contains("Formatter") => {
            let b = if last == "write_fmt" { let t = it.as_t(&a[1]); match it.t.app_name(t) { Some(("text", x)) => x.to_vec(), _ => vec![t] } } else { content(it, st, &a[1]).unwrap_or_default() };
            it.event(st, "write", b);
            M::Ret(ok(it))
        }
        "fmt" if fun.args.len() == 2 && path.contains("Display") && strings(it, fun.args[0]) => { let b = content(it, st, &a[0]).unwrap_or_default(); it.event(st, "write", b); M::Ret(ok(it)) }
        _ => M::No,
    }
}
fn opaque_text(it: &mut Interp, st: &State, fun: &Func, a: &[Val]) -> T { let to = arg_ty(it, fun, 0); let ct = it.ct(to); let v = deref(it, st, &a[0], to); let b = it.flat_v(st, &v, ct); it.t.app("shown", &b) }
/// constructors used as functions
fn constructor(it: &mut Interp, _st: &mut State, f: FnId, a: &[Val]) -> M {
    let p = it.p; let fun = &p.fns[f as usize];
    if fun.body.is_some() || fun.kind != FnKind::Item { return M::No }
    let TyKind::Adt { variants, kind, .. } = &p.tys[fun.ret as usize].kind else { return M::No };
    let last = fun.path.rsplit("::").next().unwrap_or("");
    let Some(i) = variants.iter().position(|v| v.name == last && v.fields.len() == a.len()) else { return M::No };
    let ct = it.ct(fun.ret);
    match kind { AdtKind::Enum => M::Ret(variant(it, ct, i, a.to_vec())), AdtKind::Struct if a.len() == 1 => M::Ret(a[0].clone()), AdtKind::Struct => M::Ret(Val::Agg(Rc::new(a.to_vec()))), _ => M::No }
}
