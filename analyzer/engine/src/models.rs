//! Meaning of the library functions the analysed code is built on: hashes, readers, vectors, ciphers, curves.
use crate::interp::*;
use crate::term::*;
use ir::*;
use std::rc::Rc;

pub fn install(it: &mut Interp) { it.models.push(Rc::new(constant_time)); it.models.push(Rc::new(digest)) }
/// what the noise and session layers are built on
pub fn install_wire(it: &mut Interp) { install(it); for m in [vector as fn(&mut Interp, &mut State, FnId, &[Val]) -> M, hkdf, aead, rotor] { it.models.push(Rc::new(m)) } }

/// the bytes of a value, through references
pub fn bytes(it: &mut Interp, st: &State, v: &Val, ty: TyId) -> Vec<T> {
    let ct = it.ct(ty);
    let fl = it.flat_v(st, v, ct);
    let mut r = vec![];
    for t in fl { let w = it.t.w(t); if w == 8 { r.push(t) } else if w > 8 { for i in 0..w / 8 { let b = it.t.slice(t, i * 8, 8, 8); r.push(b) } } else { it.lose("bytes of an opaque value"); r.push(t) } }
    r
}
pub fn tyname(it: &Interp, t: TyId) -> String { it.p.tys[t as usize].name.clone() }
/// last segment of a type name, without arguments
pub fn short(n: &str) -> String { let n = n.trim_start_matches('&').trim_start_matches("mut "); let b = n.split('<').next().unwrap_or(n); b.rsplit("::").next().unwrap_or(b).to_string() }
pub fn deref(it: &mut Interp, st: &State, v: &Val, to: TyId) -> Val {
    let mut r = Val::Undef; let ct = it.ct(to);
    for (i, (c, p)) in it.locs(v, to).into_iter().rev().enumerate() { let x = it.read_p(st, &p); r = if i == 0 { x } else { it.merge_ct(c, &x, &r, ct) } }
    r
}
pub fn store(it: &mut Interp, st: &mut State, v: &Val, to: TyId, x: Val) { for (c, p) in it.locs(v, to) { it.write_p(st, &p, x.clone(), c) } }
/// a value of a type made of consecutive components of an opaque term
pub fn parts(it: &mut Interp, ct: Ct, a: T) -> Val { it.fresh(ct, a) }

fn constant_time(it: &mut Interp, st: &mut State, f: FnId, a: &[Val]) -> M {
    let p = it.p; let fun = &p.fns[f as usize];
    if fun.krate != "subtle" { return M::No }
    let one8 = |it: &mut Interp, c: T| Val::T(it.t.zext(c, 8));
    let truth = |it: &mut Interp, v: &Val| { let t = it.as_t(v); let z = it.t.konst(0, 8); let e = it.t.eq(t, z); it.t.not(e) };
    match fun.path.as_str() {
        "<[T] as subtle::ConstantTimeEq>::ct_eq" | "<u8 as subtle::ConstantTimeEq>::ct_eq" => {
            let (x, y) = (bytes(it, st, &a[0], fun.args[0]), bytes(it, st, &a[1], fun.args[1]));
            if x.len() != y.len() { return M::Ret(one8(it, Terms::FALSE)) }
            let es: Vec<T> = x.iter().zip(y.iter()).map(|(p, q)| it.t.eq(*p, *q)).collect();
            let e = it.t.and(&es);
            M::Ret(one8(it, e))
        }
        "<subtle::Choice as std::ops::Not>::not" => { let c = truth(it, &a[0]); let n = it.t.not(c); M::Ret(one8(it, n)) }
        "<subtle::Choice as std::ops::BitAnd>::bitand" => { let (c, d) = (truth(it, &a[0]), truth(it, &a[1])); let n = it.t.and(&[c, d]); M::Ret(one8(it, n)) }
        "<subtle::Choice as std::ops::BitOr>::bitor" => { let (c, d) = (truth(it, &a[0]), truth(it, &a[1])); let n = it.t.or(&[c, d]); M::Ret(one8(it, n)) }
        "<u8 as subtle::ConditionallySelectable>::conditional_assign" => {
            let to = p_ty(it, fun.args[0]); let (x, y) = (deref(it, st, &a[0], to), deref(it, st, &a[1], to));
            let c = truth(it, &a[2]); let ct = it.ct(to); let v = it.merge_ct(c, &y, &x, ct);
            store(it, st, &a[0], to, v); M::Ret(Val::Undef)
        }
        "<u8 as subtle::ConditionallySelectable>::conditional_select" => {
            let to = p_ty(it, fun.args[0]); let (x, y) = (deref(it, st, &a[0], to), deref(it, st, &a[1], to));
            let c = truth(it, &a[2]); let ct = it.ct(to); M::Ret(it.merge_ct(c, &y, &x, ct))
        }
        _ => M::No,
    }
}
fn p_ty(it: &Interp, t: TyId) -> TyId { it.pointee(t).unwrap_or(t) }

/// hash functions: the state is the sequence of absorbed bytes
fn digest(it: &mut Interp, st: &mut State, f: FnId, a: &[Val]) -> M {
    let p = it.p; let fun = &p.fns[f as usize];
    if fun.body.is_some() { return M::No }
    let m = fun.path.rsplit("::").next().unwrap_or("");
    let hashy = |n: &str| { let s = short(n); s.starts_with("Sha3_") || s.starts_with("Shake") || s.starts_with("Sha512") || s.starts_with("Sha256") };
    let alg = |it: &Interp, t: TyId| short(&tyname(it, t));
    let absorbed = |it: &mut Interp, v: &Val, d: &str| -> Vec<T> {
        let t = it.as_t(v);
        match it.t.app_name(t).map(|(n, x)| (n.to_string(), x.to_vec())) { Some((n, x)) if n == format!("absorb:{d}") => x, _ => { it.lose("state of a hash function is not known"); vec![t] } }
    };
    let ret = fun.ret;
    match m {
        "default" if hashy(&tyname(it, ret)) => { let d = alg(it, ret); M::Ret(Val::T(it.t.app(&format!("absorb:{d}"), &[]))) }
        "new" if fun.args.is_empty() && hashy(&tyname(it, ret)) => { let d = alg(it, ret); M::Ret(Val::T(it.t.app(&format!("absorb:{d}"), &[]))) }
        "chain" if fun.args.len() == 2 && hashy(&tyname(it, fun.args[0])) => {
            let d = alg(it, fun.args[0]);
            let mut x = absorbed(it, &a[0], &d); x.extend(bytes(it, st, &a[1], fun.args[1]));
            M::Ret(Val::T(it.t.app(&format!("absorb:{d}"), &x)))
        }
        "update" if fun.args.len() == 2 && it.pointee(fun.args[0]).map(|t| hashy(&tyname(it, t))).unwrap_or(false) => {
            let to = p_ty(it, fun.args[0]); let d = alg(it, to);
            let s = deref(it, st, &a[0], to);
            let mut x = absorbed(it, &s, &d); x.extend(bytes(it, st, &a[1], fun.args[1]));
            let n = it.t.app(&format!("absorb:{d}"), &x);
            store(it, st, &a[0], to, Val::T(n));
            M::Ret(Val::Undef)
        }
        "finalize_fixed" | "finalize" if fun.args.len() == 1 && hashy(&tyname(it, fun.args[0])) => {
            let d = alg(it, fun.args[0]);
            let x = absorbed(it, &a[0], &d);
            let h = it.t.app(&format!("hash:{d}"), &x);
            it.event(st, &format!("hash:{d}"), x);
            let ct = it.ct(ret); let v = it.fresh(ct, h); M::Ret(it.expand(&v, ct))
        }
        "digest" if fun.args.len() == 1 && fun.targs.first().map(|t| hashy(&tyname(it, *t))).unwrap_or(false) => {
            let d = alg(it, fun.targs[0]);
            let x = bytes(it, st, &a[0], fun.args[0]);
            let h = it.t.app(&format!("hash:{d}"), &x);
            it.event(st, &format!("hash:{d}"), x);
            let ct = it.ct(ret); let v = it.fresh(ct, h); M::Ret(it.expand(&v, ct))
        }
        "finalize_xof" if fun.args.len() == 1 && hashy(&tyname(it, fun.args[0])) => {
            let d = alg(it, fun.args[0]);
            let x = absorbed(it, &a[0], &d);
            it.event(st, &format!("xof:{d}"), x.clone());
            M::Ret(Val::T(it.t.app(&format!("xof:{d}"), &x)))
        }
        "read" if fun.args.len() == 2 && tyname(it, fun.args[0]).contains("XofReader") => {
            let to = p_ty(it, fun.args[0]);
            let r = deref(it, st, &a[0], to); let r = it.as_t(&r);
            let Val::Ptr(q) = &a[1] else { it.lose("buffer of a reader"); return M::Ret(Val::Undef) };
            let n = it.len_of(q); let Some(k) = it.t.c(n) else { it.lose("length of a read"); return M::Ret(Val::Undef) };
            let s = it.t.app("xofread", &[r]);
            let v: Vec<Val> = (0..k as u32).map(|i| Val::T(it.t.sel(s, i, 8))).collect();
            it.write_p(st, q, Val::Agg(Rc::new(v)), Terms::TRUE);
            let nx = it.t.app("xofnext", &[r, n]);
            store(it, st, &a[0], to, Val::T(nx));
            M::Ret(Val::Undef)
        }
        _ => M::No,
    }
}

// ---------------------------------------------------------------- sequences
/// the single location of a sequence, and its length
pub fn seq(it: &mut Interp, v: &Val) -> Option<(P, u64)> {
    let Val::Ptr(q) = v else { it.lose("sequence of unknown place"); return None };
    let n = it.len_of(q);
    let Some(n) = it.t.c(n) else { it.lose("sequence of unknown length"); return None };
    Some(((**q).clone(), n as u64))
}
pub fn items(it: &mut Interp, st: &State, v: &Val) -> Vec<Val> {
    let Some((q, n)) = seq(it, v) else { return vec![] };
    if n == 0 { return vec![] }
    match it.read_p(st, &q) { Val::Agg(x) => x.to_vec(), Val::Undef => vec![Val::Undef; n as usize], x => { let ct = it.ct_at(&q); match it.expand(&x, ct) { Val::Agg(y) => y.to_vec(), _ => { it.lose("contents of a sequence"); vec![] } } } }
}
/// constructor `v` of an enum with one optional payload
pub fn variant(it: &mut Interp, ct: Ct, v: usize, fields: Vec<Val>) -> Val {
    let C::En(vs, _) = it.c(ct).clone() else { it.lose("enum expected"); return Val::Undef };
    let mut ps: Vec<Val> = vs.iter().map(|f| Val::Agg(Rc::new(vec![Val::Undef; f.len()]))).collect();
    ps[v] = Val::Agg(Rc::new(fields));
    let k = it.us(v as u64);
    Val::Enum(Rc::new((k, ps)))
}
fn vector(it: &mut Interp, st: &mut State, f: FnId, a: &[Val]) -> M {
    let p = it.p; let fun = &p.fns[f as usize];
    let path = fun.path.as_str();
    let last = path.rsplit("::").next().unwrap_or("");
    if fun.krate == "core" { return match path { "core::str::<impl str>::as_bytes" => M::Ret(a[0].clone()), "core::str::<impl str>::len" => match &a[0] { Val::Ptr(q) => { let n = it.len_of(q); M::Ret(Val::T(n)) } _ => M::No }, _ => M::No } }
    if fun.krate != "alloc" { return M::No }
    if path.starts_with("<std::vec::IntoIter") {
        return match last {
            "next" => {
                let to = p_ty(it, fun.args[0]); let v = deref(it, st, &a[0], to); let x = items(it, st, &v);
                let ct = it.ct(fun.ret);
                let e = match &p.tys[to as usize].kind { TyKind::Adt { args, .. } => { let e = args[0]; it.ct(e) } _ => 0 };
                if x.is_empty() { return M::Ret(variant(it, ct, 0, vec![])) }
                let rest = it.new_slice(st, x[1..].to_vec(), e);
                store(it, st, &a[0], to, rest);
                M::Ret(variant(it, ct, 1, vec![x[0].clone()]))
            }
            "size_hint" | "len" => M::No,
            _ => M::No,
        }
    }
    if path.starts_with("std::string::String") || path.starts_with("<std::string::String") {
        let to = fun.args.first().map(|t| p_ty(it, *t));
        return match last {
            "new" | "with_capacity" => { let b = it.mk(C::Sc(8, false)); M::Ret(it.new_slice(st, vec![], b)) }
            "deref" | "as_str" | "as_bytes" | "as_ref" | "borrow" => M::Ret(deref(it, st, &a[0], to.unwrap())),
            "into_bytes" | "from_utf8_unchecked" => M::Ret(a[0].clone()),
            "len" => { let v = deref(it, st, &a[0], to.unwrap()); match &v { Val::Ptr(q) => { let n = it.len_of(q); M::Ret(Val::T(n)) } _ => M::No } }
            "clone" => { let v = deref(it, st, &a[0], to.unwrap()); let x = items(it, st, &v); let b = it.mk(C::Sc(8, false)); M::Ret(it.new_slice(st, x, b)) }
            "push_str" => { let to = to.unwrap(); let v = deref(it, st, &a[0], to); let mut x = items(it, st, &v); x.extend(items(it, st, &a[1])); let b = it.mk(C::Sc(8, false)); let n = it.new_slice(st, x, b); store(it, st, &a[0], to, n); M::Ret(Val::Undef) }
            "from" => { let x = items(it, st, &a[0]); let b = it.mk(C::Sc(8, false)); M::Ret(it.new_slice(st, x, b)) }
            _ => M::No,
        }
    }
    let is_vec = path.starts_with("std::vec::Vec") || path.starts_with("<std::vec::Vec");
    let ect = |it: &mut Interp, t: TyId| -> Ct { match &it.p.tys[t as usize].kind { TyKind::Adt { args, .. } => { let e = args[0]; it.ct(e) } TyKind::Slice(e) | TyKind::Array(e, _) => { let e = *e; it.ct(e) } _ => 0 } };
    if !is_vec {
        return match (path, last) {
            (_, "to_vec") | (_, "into_vec") if path.contains("slice") => { let x = items(it, st, &a[0]); let to = p_ty(it, fun.args[0]); let e = ect(it, to); M::Ret(it.new_slice(st, x, e)) }
            _ => M::No,
        }
    }
    let vt = fun.args.first().map(|t| p_ty(it, *t)).unwrap_or(fun.ret);
    match last {
        "new" | "with_capacity" => { let e = ect(it, fun.ret); M::Ret(it.new_slice(st, vec![], e)) }
        "from" => { let to = p_ty(it, fun.args[0]); match p.tys[to as usize].kind { TyKind::Slice(_) | TyKind::Array(..) => {} _ => return M::No }
            let x = match &a[0] { Val::Ptr(q) => { let v = it.read_p(st, q); let ct = it.ct_at(q); match it.expand(&v, ct) { Val::Agg(x) => x.to_vec(), _ => return M::No } } v => { let ct = it.ct(to); match it.expand(v, ct) { Val::Agg(x) => x.to_vec(), _ => return M::No } } };
            let e = ect(it, fun.ret); M::Ret(it.new_slice(st, x, e)) }
        "len" | "is_empty" => {
            let v = deref(it, st, &a[0], vt);
            fn ln(it: &mut Interp, v: &Val) -> T { match v { Val::Ptr(q) => it.len_of(q), Val::Ite(x) => { let (p, q) = (ln(it, &x.1), ln(it, &x.2)); it.t.ite(x.0, p, q) } _ => { it.lose("length of an unknown vector"); it.us(0) } } }
            let n = ln(it, &v);
            if last == "len" { M::Ret(Val::T(n)) } else { let z = it.us(0); M::Ret(Val::T(it.t.eq(n, z))) }
        }
        "deref" | "deref_mut" | "as_slice" | "as_mut_slice" => M::Ret(deref(it, st, &a[0], vt)),
        "as_ref" | "as_mut" | "borrow" | "borrow_mut" => match p.tys[p_ty(it, fun.ret) as usize].kind { TyKind::Slice(_) => M::Ret(deref(it, st, &a[0], vt)), _ => M::Ret(a[0].clone()) },
        "index" | "index_mut" => {
            let s = deref(it, st, &a[0], vt);
            let callee = fun.body.iter().flat_map(|b| b.blocks.iter()).find_map(|b| match &b.term { Term::Call { func: Callee::Direct(g), .. } if p.fns[*g as usize].path.contains("SliceIndex") => Some(*g), _ => None });
            let Some(g) = callee else { it.lose("index of a vector"); return M::Ret(Val::Undef) };
            match it.call(st.clone(), g, vec![a[1].clone(), s]) { Some((n, v)) => { *st = n; M::Ret(v) } None => M::Diverge }
        }
        "clone" | "to_vec" => { let v = deref(it, st, &a[0], vt); let x = items(it, st, &v); let e = ect(it, vt); M::Ret(it.new_slice(st, x, e)) }
        "extend" | "from_iter" | "spec_extend" => {
            let (e, v) = if last == "from_iter" { (ect(it, fun.ret), None) } else { (ect(it, vt), Some(deref(it, st, &a[0], vt))) };
            let mut x = match &v { Some(v) => items(it, st, v), None => vec![] };
            let Some(src) = (if last == "from_iter" { a.first() } else { a.get(1) }) else { return M::No };
            let Some(more) = drawn(it, st, fun, src.clone(), e) else { return M::Diverge };
            x.extend(more);
            let n = it.new_slice(st, x, e);
            if last == "from_iter" { return M::Ret(n) }
            store(it, st, &a[0], vt, n);
            M::Ret(Val::Undef)
        }
        "into_iter" => match p.tys[vt as usize].kind { TyKind::Adt { .. } => M::Ret(if p.tys[fun.args[0] as usize].name.starts_with('&') { return M::No } else { a[0].clone() }), _ => M::No },
        "resize" | "truncate" | "extend_from_slice" | "push" | "clear" | "split_off" | "append" | "insert" | "reserve" | "reserve_exact" | "shrink_to_fit" => {
            if last.starts_with("reserve") || last == "shrink_to_fit" { return M::Ret(Val::Undef) }
            let e = ect(it, vt);
            let v = deref(it, st, &a[0], vt);
            let mut x = items(it, st, &v);
            let mut ret = Val::Undef;
            let num = |it: &mut Interp, v: &Val| { let t = it.as_t(v); match it.t.c(t) { Some(n) => n as usize, None => { it.lose("length of a vector is not determined"); 0 } } };
            match last {
                "resize" => { let n = num(it, &a[1]); x.resize(n, a[2].clone()) }
                "truncate" => { let n = num(it, &a[1]); x.truncate(n) }
                "extend_from_slice" => { let y = items(it, st, &a[1]); x.extend(y) }
                "push" => x.push(a[1].clone()),
                "clear" => x.clear(),
                "append" => { let y = deref(it, st, &a[1], vt); let y = items(it, st, &y); x.extend(y); let z = it.new_slice(st, vec![], e); store(it, st, &a[1], vt, z) }
                "split_off" => { let n = num(it, &a[1]); if n > x.len() { it.alarm(st, "panic:split_off".into(), Terms::TRUE, String::new()); return M::Diverge } let y = x.split_off(n); ret = it.new_slice(st, y, e) }
                _ => { it.lose("insertion into a vector") }
            }
            let n = it.new_slice(st, x, e);
            store(it, st, &a[0], vt, n);
            M::Ret(ret)
        }
        _ => M::No,
    }
}
/// everything an iterator yields
fn drawn(it: &mut Interp, st: &mut State, fun: &Func, src: Val, elem: Ct) -> Option<Vec<Val>> {
    let Some((make, next)) = fun.iter else { it.lose("contents of an iterator"); return Some(vec![]) };
    let (s, i) = it.call(st.clone(), make, vec![src])?; *st = s;
    let ict = { let t = it.p.fns[make as usize].ret; it.ct(t) };
    let i = it.new_ptr(st, i, ict);
    let rt = it.p.fns[next as usize].ret; let rct = it.ct(rt);
    let byref = match &it.p.tys[rt as usize].kind { TyKind::Adt { args, .. } => matches!(it.p.tys[args[0] as usize].kind, TyKind::Ref(..)) && !matches!(it.c(elem), C::Ptr), _ => false };
    let mut r = vec![];
    loop {
        let (s, o) = it.call(st.clone(), next, vec![i.clone()])?; *st = s;
        let Val::Enum(x) = it.expand(&o, rct) else { it.lose("item of an iterator"); return Some(r) };
        match it.t.c(x.0) {
            Some(0) => return Some(r),
            Some(_) => { let v = match &x.1[1] { Val::Agg(y) => y[0].clone(), v => v.clone() }; let v = if byref { match &v { Val::Ptr(q) => it.read_p(st, q), v => v.clone() } } else { v }; r.push(v) }
            None => { it.lose("number of items of an iterator"); return Some(r) }
        }
        if r.len() > 1 << 16 { it.lose("endless iterator"); return Some(r) }
    }
}
// ---------------------------------------------------------------- key derivation
fn hash_name(it: &Interp, fun: &Func) -> String {
    for t in fun.targs.iter().chain(fun.args.iter()).chain([fun.ret].iter()) { let n = tyname(it, *t); for h in ["Sha3_256", "Sha3_512", "Sha512", "Sha256", "Sha3_384", "Sha3_224", "Sha384"] { if n.contains(h) { return h.into() } } }
    "?".into()
}
fn hkdf(it: &mut Interp, st: &mut State, f: FnId, a: &[Val]) -> M {
    let p = it.p; let fun = &p.fns[f as usize];
    if fun.krate != "hkdf" { return M::No }
    let d = hash_name(it, fun);
    let last = fun.path.rsplit("::").next().unwrap_or("");
    let ctr = it.ct(fun.ret);
    match last {
        "extract" | "new" if fun.args.len() == 2 => {
            let oct = it.ct(fun.args[0]);
            let salt: Vec<T> = match it.expand(&a[0], oct) {
                Val::Enum(x) => match (it.t.c(x.0), &x.1[1]) { (Some(0), _) => vec![], (Some(1), Val::Agg(y)) => { let to = fun.args[0]; let st2 = match &p.tys[to as usize].kind { TyKind::Adt { args, .. } => args[0], _ => to }; bytes(it, st, &y[0], st2) } _ => { it.lose("salt of a key derivation"); vec![] } },
                _ => { it.lose("salt of a key derivation"); vec![] }
            };
            let ikm = bytes(it, st, &a[1], fun.args[1]);
            let mut v = vec![it.us(salt.len() as u64)]; v.extend(salt); v.extend(ikm);
            let h = it.t.app(&format!("hkdf:{d}"), &v);
            if last == "new" { return M::Ret(Val::T(h)) }
            let prk = it.t.app("prk", &[h]);
            M::Ret(Val::Agg(Rc::new(vec![Val::T(prk), Val::T(h)])))
        }
        "expand" | "expand_multi_info" => {
            let to = p_ty(it, fun.args[0]);
            let h = deref(it, st, &a[0], to); let h = it.as_t(&h);
            let mut v = vec![h];
            if last == "expand" { v.extend(bytes(it, st, &a[1], fun.args[1])) } else { let ct = it.ct(fun.args[1]); v.extend(it.flat_v(st, &a[1], ct)) }
            let o = it.t.app("okm", &v);
            let Some((q, n)) = seq(it, &a[2]) else { return M::Ret(variant(it, ctr, 0, vec![Val::Undef])) };
            let b: Vec<Val> = (0..n as u32).map(|i| Val::T(it.t.sel(o, i, 8))).collect();
            if n > 0 { it.write_p(st, &q, Val::Agg(Rc::new(b)), Terms::TRUE) }
            M::Ret(variant(it, ctr, 0, vec![Val::Undef]))
        }
        _ => M::No,
    }
}
// ---------------------------------------------------------------- authenticated encryption
pub const TAG: &str = "tag:";
/// aead, nonce, associated data and text of a sealed message or an attempt to open one
pub struct Sealed { pub aead: T, pub nonce: Vec<T>, pub ad: Vec<T>, pub text: Vec<T> }
pub fn sealed(t: &Terms, x: T) -> Option<Sealed> {
    let (_, v) = t.app_name(x)?;
    let nl = t.c(*v.get(1)?)? as usize;
    let al = t.c(*v.get(2 + nl)?)? as usize;
    Some(Sealed { aead: v[0], nonce: v[2..2 + nl].to_vec(), ad: v[3 + nl..3 + nl + al].to_vec(), text: v[3 + nl + al..].to_vec() })
}
fn aead(it: &mut Interp, st: &mut State, f: FnId, a: &[Val]) -> M {
    let p = it.p; let fun = &p.fns[f as usize];
    if fun.body.is_some() || !fun.path.contains("as aead::") { return M::No }
    let last = fun.path.rsplit("::").next().unwrap_or("");
    match last {
        "new" => { let k = bytes(it, st, &a[0], fun.args[0]); let n = short(&tyname(it, fun.ret)); M::Ret(Val::T(it.t.app(&format!("aead:{n}"), &k))) }
        "encrypt_in_place_detached" => {
            let to = p_ty(it, fun.args[0]);
            let k = deref(it, st, &a[0], to); let k = it.as_t(&k);
            let (n, ad, pt) = (bytes(it, st, &a[1], fun.args[1]), bytes(it, st, &a[2], fun.args[2]), bytes(it, st, &a[3], fun.args[3]));
            let mut v = vec![k, it.us(n.len() as u64)]; v.extend(n); v.push(it.us(ad.len() as u64)); v.extend(ad); v.extend(&pt);
            let x = it.t.app("enc", &v); let tg = it.t.app("tag", &v);
            it.event(st, "seal", vec![x]);
            if let Some((q, n)) = seq(it, &a[3]) { let b: Vec<Val> = (0..n as u32).map(|i| Val::T(it.t.sel(x, i, 8))).collect(); if n > 0 { it.write_p(st, &q, Val::Agg(Rc::new(b)), Terms::TRUE) } }
            let ct = it.ct(fun.ret);
            M::Ret(variant(it, ct, 0, vec![Val::T(tg)]))
        }
        "decrypt_in_place_detached" => {
            let to = p_ty(it, fun.args[0]);
            let k = deref(it, st, &a[0], to); let k = it.as_t(&k);
            let (n, ad, c, tg) = (bytes(it, st, &a[1], fun.args[1]), bytes(it, st, &a[2], fun.args[2]), bytes(it, st, &a[3], fun.args[3]), bytes(it, st, &a[4], fun.args[4]));
            let mut v = vec![k, it.us(n.len() as u64)]; v.extend(&n); v.push(it.us(ad.len() as u64)); v.extend(&ad); v.extend(&c); v.extend(&tg);
            let x = it.t.app("dec", &v);
            // opening what was sealed under the same key, nonce and data
            let src = |it: &Interp, b: T, i: usize| -> Option<T> { match it.t.k(b) { K::Sel(s, j) if *j as usize == i => Some(*s), _ => None } };
            let mut pt: Option<Vec<T>> = None;
            if let Some(tt) = tg.first().and_then(|b| src(it, *b, 0)) {
                if tg.iter().enumerate().all(|(i, b)| src(it, *b, i) == Some(tt)) {
                    if let Some(("tag", w)) = it.t.app_name(tt) {
                        let w = w.to_vec(); let e = it.t.app("enc", &w);
                        let s = sealed(&it.t, e).unwrap();
                        if s.aead == k && s.nonce == n && s.ad == ad && s.text.len() == c.len() && c.iter().enumerate().all(|(i, b)| *b == it.t.sel(e, i as u32, 8)) { pt = Some(s.text) }
                    }
                }
            }
            it.event(st, "open", vec![x]);
            let ct = it.ct(fun.ret);
            let ok = match (&pt, it.force) { (Some(_), _) => Terms::TRUE, (None, Some(v)) => it.t.b(v), (None, None) => it.t.sel(x, OPENED, 1) };
            let scrap = it.t.app("scrap", &[x]);
            let b: Vec<Val> = (0..c.len()).map(|i| { let good = match &pt { Some(p) => p[i], None => it.t.sel(x, i as u32, 8) }; let bad = it.t.sel(scrap, i as u32, 8); Val::T(it.t.ite(ok, good, bad)) }).collect();
            if let (Some((q, _)), false) = (seq(it, &a[3]), b.is_empty()) { it.write_p(st, &q, Val::Agg(Rc::new(b)), Terms::TRUE) }
            let (y, z) = (variant(it, ct, 0, vec![Val::Undef]), variant(it, ct, 1, vec![Val::Undef]));
            M::Ret(it.merge_ct(ok, &y, &z, ct))
        }
        _ => M::No,
    }
}
/// component of an attempt to open: did it succeed?
pub const OPENED: u32 = 900_000;
/// the rotor of the harness
fn rotor(it: &mut Interp, st: &mut State, f: FnId, a: &[Val]) -> M {
    let p = it.p; let fun = &p.fns[f as usize];
    if fun.krate != "wire" { return M::No }
    match fun.path.as_str() {
        "noise::rotated" => {
            let (rt, kt) = (p_ty(it, fun.args[0]), p_ty(it, fun.args[1]));
            let rct = it.ct(rt);
            let r = deref(it, st, &a[0], rt); let r = it.flat_v(st, &r, rct);
            let k = deref(it, st, &a[1], kt); let k = it.as_t(&k);
            let r0 = it.t.app("rotor", &r);
            let nk = it.t.app("rotated", &[r0, k]);
            let nr = it.t.app("advanced", &[r0, k]);
            it.event(st, "rotate", vec![nk]);
            let nv = it.fresh(rct, nr); let nv = it.expand(&nv, rct);
            store(it, st, &a[0], rt, nv);
            store(it, st, &a[1], kt, Val::T(nk));
            M::Ret(Val::Undef)
        }
        _ => M::No,
    }
}
