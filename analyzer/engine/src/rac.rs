//! Properties of the rac crate: composite encodings, signatures and the wrapped curves.
use crate::check::Report;
use crate::curve::{lin, poly, unlin, unpoly};
use crate::interp::*;
use crate::kyber::{run_jobs, Findings, Job};
use crate::noise::wire;
use crate::sess::{arg_flat, call, floor, implies, nopanic, outcome, ret_flat, rule, unders, unknown};
use crate::sim::Sim;
use crate::term::*;
use crate::util;
use ir::*;
use std::collections::BTreeMap;

fn trusted() -> Vec<String> {
    vec!["rustc MIR of the workspace, core, alloc (indexing and views), generic-array and serde as exported by the driver".into(), "the interpreter's term rules".into(),
         "meaning of digest, curve25519-dalek and secp256k1 as documented: groups with encodings that determine their elements".into()]
}
fn one(f: impl FnOnce(&mut Sim, &mut Findings) + Send + 'static) -> Job { Box::new(move |p| { let mut s = Sim::session(p); s.ns = "racm".into(); let mut fs = Findings::default(); f(&mut s, &mut fs); fs }) }
fn at(m: &str, f: &str) -> String { format!("{m}::{f}") }
/// what an entry point returns, as scalars
fn out(s: &mut Sim, root: &str, args: Vec<Val>) -> Option<(Val, Vec<T>)> { let v = call(s, root, args)?; let b = ret_flat(s, root, &v); Some((v, b)) }
fn arr(s: &mut Sim, b: &[T]) -> Val { s.arr(b) }
fn len(s: &mut Sim, root: &str, i: usize) -> usize { let t = s.arg_ty(root, i); s.it.p.tys[t as usize].size.unwrap_or(0) as usize }
fn all_eq(s: &mut Sim, a: &[T], b: &[T]) -> T { if a.len() != b.len() { return Terms::FALSE } let e: Vec<T> = a.iter().zip(b).map(|(x, y)| s.it.t.eq(*x, *y)).collect(); s.it.t.and(&e) }
fn same(s: &Sim, a: T, b: T) -> bool { a == b || implies(s, a, b) && implies(s, b, a) }
fn payload(s: &Sim, root: &str, of: &str) -> Option<TyId> {
    let p = s.it.p; let f = s.it.find_fn(&s.path(root))?;
    match &p.tys[p.fns[f as usize].ret as usize].kind { TyKind::Adt { variants, .. } => variants.iter().find(|v| v.name == of).and_then(|v| v.fields.first()).map(|f| f.1), _ => None }
}
/// condition of success, and the scalars of the value then
fn decoded(s: &mut Sim, root: &str, args: Vec<Val>, of: &str) -> Option<(T, Val, Vec<T>)> {
    let v = call(s, root, args)?;
    let (c, x) = outcome(s, root, &v);
    let t = payload(s, root, of)?;
    let b = if c == Terms::FALSE { vec![] } else { s.flat(&x, t) };
    let b = unders(s, &b, c);
    Some((c, x, b))
}
/// every operation that failed since event k makes the whole fail
fn heeded(s: &Sim, k: usize, ok: T) -> bool {
    s.it.events[k..].iter().filter(|e| e.kind == "fallible" && e.terms[0] != Terms::TRUE).all(|e| implies(s, ok, e.terms[0]) || e.pc.iter().any(|(c, v)| if *v { s.it.t.decide(*c, &[(ok, true)]) == Some(false) } else { implies(s, ok, *c) }))
}
const PAIRS: [&str; 12] = ["pair_same", "pair_32", "pair_big", "pair_alike", "pair_a", "pair_b", "pair_none", "pair_nest", "pair_deep", "pair_point", "pair_tail", "pair_toy"];
const LINES: [&str; 8] = ["line_long", "line_33", "line_big", "line_same", "line_array", "line_empty", "line_pair", "line_nest"];
fn pair(m: &'static str) -> Job {
    one(move |s, fs| {
        let r = |f: &str| at(m, f);
        let (u, v) = (unknown(s, &r("make"), 0, "u"), unknown(s, &r("make"), 1, "v"));
        let anchor = format!("rac::Concat::clone_line:{m}");
        let Some((x, want)) = out(s, &r("make"), vec![u.clone(), v.clone()]) else { s.follows(fs, m); return };
        let (Some((_, e)), Some((_, eu)), Some((_, ev))) = (out(s, &r("enc"), vec![x]), out(s, &r("enc_u"), vec![u]), out(s, &r("enc_v"), vec![v])) else { fs.viol("the parts are encoded one after the other", anchor.clone(), format!("{anchor}: encoding always panics")); s.clean(fs, m); return };
        rule(fs, "the parts are encoded one after the other", &anchor, e == [eu.clone(), ev.clone()].concat(), || format!("the parts are encoded as {} and {}, the pair as {}", s.shows(&eu), s.shows(&ev), s.shows(&e)));
        let a = arr(s, &e);
        let anchor = format!("rac::Concat::try_clone_array:{m}");
        if let Some((c, _, y)) = decoded(s, &r("dec"), vec![a], "Ok") {
            rule(fs, "what was encoded decodes to the same", &anchor, c == Terms::TRUE && y == want, || format!("the encoding decodes under {} to {} instead of {}", s.show(c), s.shows(&y), s.shows(&want)));
        } else { fs.viol("what was encoded decodes to the same", anchor.clone(), format!("{anchor}: decoding always panics")) }
        // unknown bytes
        let b = s.bytes("b", eu.len() + ev.len(), 0);
        let (a, p, q) = (arr(s, &b), arr(s, &b[..eu.len()]), arr(s, &b[eu.len()..]));
        if let (Some((c, _, y)), Some((cu, _, yu)), Some((cv, _, yv))) = (decoded(s, &r("dec"), vec![a], "Ok"), decoded(s, &r("dec_u"), vec![p], "Ok"), decoded(s, &r("dec_v"), vec![q], "Ok")) {
            let both = s.it.t.and(&[cu, cv]);
            rule(fs, "decoding succeeds exactly if both parts decode", &anchor, same(s, c, both), || format!("decoding succeeds under {}, the parts under {} and {}", s.show(c), s.show(cu), s.show(cv)));
            let parts = [yu, yv].concat(); let parts = unders(s, &parts, c); let y = unders(s, &y, c);
            rule(fs, "the parts are decoded where they were encoded", &anchor, y == parts, || format!("the pair decodes to {}, the parts to {}", s.shows(&y), s.shows(&parts)));
        }
        s.clean(fs, m);
    })
}
fn line(m: &'static str) -> Job {
    one(move |s, fs| {
        let r = |f: &str| at(m, f);
        let x = unknown(s, &r("make"), 0, "x"); let want = arg_flat(s, &r("make"), 0, &x);
        let Some((_, e)) = out(s, &r("enc"), vec![x.clone()]) else { s.clean(fs, m); return };
        let n = e.len();
        let a = arr(s, &e);
        let anchor = format!("rac::LineLike::clone:{m}");
        if let Some((_, y)) = out(s, &r("dup"), vec![x.clone()]) { rule(fs, "a clone is the same value", &anchor, y == want, || format!("a clone of {} is {}", s.shows(&want), s.shows(&y))) } else { fs.viol("a clone is the same value", anchor.clone(), "cloning always panics".into()) }
        let anchor = format!("rac::Line::clone_array:{m}");
        if let Some((_, y)) = out(s, &r("clo"), vec![a.clone()]) { rule(fs, "what was encoded decodes to the same", &anchor, y == want, || format!("the encoding decodes to {}", s.shows(&y))) }
        if let Some((c, _, y)) = decoded(s, &r("dec"), vec![a], "Ok") { rule(fs, "what was encoded decodes to the same", &anchor, c == Terms::TRUE && y == want, || format!("the encoding decodes under {} to {}", s.show(c), s.shows(&y))) }
        let b = s.bytes("b", n, 0); let a = arr(s, &b);
        if let Some((y, f)) = out(s, &r("clo"), vec![a.clone()]) {
            if let Some((_, e)) = out(s, &r("enc"), vec![y]) { rule(fs, "decoded bytes encode to the same bytes", &anchor, e == b, || format!("bytes {} are encoded again as {}", s.shows(&b), s.shows(&e))) }
            if let Some((c, _, g)) = decoded(s, &r("dec"), vec![a], "Ok") { rule(fs, "both ways to decode agree", &anchor, c == Terms::TRUE && f == g, || format!("one way decodes to {}, the other under {} to {}", s.shows(&f), s.show(c), s.shows(&g))) }
        }
        let anchor = format!("rac::LineLike::serialize:{m}");
        if let Some((c, y, _)) = decoded(s, &r("ser"), vec![x], "Some") {
            rule(fs, "serialization gives the value back", &anchor, c == Terms::TRUE, || format!("serialization succeeds under {}", s.show(c)));
            let text = s.text(&y); let v = s.slice(&text);
            if let Some((c, _, y)) = decoded(s, &r("de"), vec![v], "Some") { rule(fs, "serialization gives the value back", &anchor, c == Terms::TRUE && y == want, || format!("the serialized form is read back under {} as {}", s.show(c), s.shows(&y))) }
        }
        s.clean(fs, m);
    })
}
fn fields(m: &'static str) -> Job {
    one(move |s, fs| {
        let r = |f: &str| at(m, f);
        let x = unknown(s, &r("make"), 0, "x"); let want = arg_flat(s, &r("make"), 0, &x);
        let anchor = format!("rac::Concat::serialize:{m}");
        if let Some((c, y, _)) = decoded(s, &r("ser"), vec![x], "Some") {
            let text = s.text(&y); let v = s.slice(&text);
            if let Some((d, _, y)) = decoded(s, &r("de"), vec![v], "Some") { rule(fs, "serialization gives the value back", &anchor, c == Terms::TRUE && d == Terms::TRUE && y == want, || format!("the serialized form is written under {} and read back under {} as {}", s.show(c), s.show(d), s.shows(&y))) }
        }
        s.clean(fs, m);
    })
}
/// messages are taken with these lengths
const MESSAGES: [usize; 17] = [0, 1, 7, 31, 32, 33, 63, 64, 65, 127, 128, 136, 200, 255, 256, 257, 1100];
/// these, and longer ones at which the code could change its behaviour
fn messages(d: &str) -> Vec<usize> { MESSAGES.into_iter().chain(util::boundaries(wire(d), "rac", 66000).into_iter().filter(|n| *n > 257)).collect() }
struct Sig { ok: T, sig: Val, pk: Val, r: Vec<T>, s: T, c: T, m: Val }
/// a signature of unknown bytes with an unknown key and nonce
fn signed(s: &mut Sim, m: &str, n: usize) -> Option<Sig> {
    let r = |f: &str| at(m, f);
    let (d, k) = (unknown(s, &r("sign"), 0, "d"), unknown(s, &r("sign"), 2, "k"));
    let b = s.bytes(&format!("m{n}."), n, 0); let msg = s.slice(&b);
    let (pk, _) = out(s, &r("public"), vec![d.clone()])?;
    let (q, _) = out(s, &r("public"), vec![k.clone()])?;
    let (rv, rx) = out(s, &r("x"), vec![q])?;
    let (hv, _) = out(s, &r("hash"), vec![rv, msg.clone()])?;
    let (c, _, h) = decoded(s, &r("scalar"), vec![hv], "Ok")?;
    let (ok, sig, _) = decoded(s, &r("sign"), vec![d.clone(), msg.clone(), k.clone()], "Ok")?;
    let (dt, kt) = (s.it.as_t(&d), s.it.as_t(&k));
    let p = { let (x, y, z) = (poly(&s.it, kt), poly(&s.it, dt), poly(&s.it, *h.first()?)); minus(&x, &times(&y, &z)) };
    let sc = unpoly(&mut s.it, &p);
    Some(Sig { ok, sig, pk, r: rx, s: sc, c, m: msg })
}
type P = BTreeMap<Vec<T>, i128>;
fn minus(a: &P, b: &P) -> P { let mut r = a.clone(); for (m, c) in b { *r.entry(m.clone()).or_insert(0) -= c } r.retain(|_, c| *c != 0); r }
fn plus(a: &P, b: &P) -> P { let mut r = a.clone(); for (m, c) in b { *r.entry(m.clone()).or_insert(0) += c } r.retain(|_, c| *c != 0); r }
fn times(a: &P, b: &P) -> P { let mut r = P::new(); for (m, c) in a { for (n, d) in b { let mut k = m.clone(); k.extend(n); k.sort(); *r.entry(k).or_insert(0) += c * d } } r.retain(|_, c| *c != 0); r }
const CURVES: [&str; 4] = ["sig_ed", "sig_toy", "sig_wide", "sig_secp"];
pub fn r01(d: &str, r: &mut Report) {
    r.what = "Abstract interpretation of encoding and decoding of pairs (eight pairs of array, point and scalar types, nested and of unequal lengths), of the total encodings and their clone and serde wrappers, and of signatures over four curves (25519, secp256k1, and two whose coordinates are shorter or longer than their scalars), on unknown values and unknown bytes. Rules: the encoding of a pair is the concatenation of those of its parts; decoding unknown bytes succeeds exactly if both parts decode, to these parts; what was encoded decodes unconditionally to an equal value; clones and serialized forms give the value back; a signature is encoded as its nonce coordinate followed by its scalar, and decoded at the same places.".into();
    r.level = "proof".into(); r.trusted = trusted();
    let mut jobs: Vec<Job> = PAIRS.iter().map(|m| pair(m)).collect();
    jobs.extend(LINES.iter().map(|m| line(m)));
    jobs.push(fields("serde_pair"));
    for m in CURVES { jobs.push(one(move |s, fs| {
        let f = |f: &str| at(m, f);
        let anchor = format!("rac::Schnorr::clone_line:{m}");
        if let Some(g) = signed(s, m, 5) {
            let e = out(s, &f("enc"), vec![g.sig.clone()]).map(|x| x.1).unwrap_or_default(); let e = unders(s, &e, g.ok);
            let sb = out(s, &f("scalar_bytes"), vec![Val::T(g.s)]).map(|x| x.1).unwrap_or_default();
            rule(fs, "a signature is its coordinate followed by its scalar", &anchor, g.ok != Terms::FALSE && e == [g.r.clone(), sb.clone()].concat(), || format!("the signature is encoded as {} and not as {} and {}", s.shows(&e), s.shows(&g.r), s.shows(&sb)));
        }
        let anchor = format!("rac::Schnorr::try_clone_array:{m}");
        let n = len(s, &f("dec"), 0); let k = len(s, &f("scalar"), 0);
        let b = s.bytes("b", n, 0); let (a, t) = (arr(s, &b), arr(s, &b[n - k..]));
        if let (Some((c, sig, _)), Some((cs, sc, _))) = (decoded(s, &f("dec"), vec![a], "Ok"), decoded(s, &f("scalar"), vec![t], "Ok")) {
            rule(fs, "decoding succeeds exactly if both parts decode", &anchor, same(s, c, cs), || format!("a signature decodes under {}, its scalar under {}", s.show(c), s.show(cs)));
            let sb = out(s, &f("scalar_bytes"), vec![sc]).map(|x| x.1).unwrap_or_default();
            let e = out(s, &f("enc"), vec![sig]).map(|x| x.1).unwrap_or_default(); let e = unders(s, &e, c); let want = [b[..n - k].to_vec(), sb].concat(); let want = unders(s, &want, c);
            rule(fs, "the parts are decoded where they were encoded", &anchor, e == want, || format!("a decoded signature is encoded as {} instead of {}", s.shows(&e), s.shows(&want)));
        }
        s.follows(fs, m);
    })) }
    run_jobs(wire(d), jobs, r);
    for (n, k) in [("the parts are encoded one after the other", 8), ("what was encoded decodes to the same", 16), ("decoding succeeds exactly if both parts decode", 11), ("the parts are decoded where they were encoded", 11), ("a clone is the same value", 4), ("serialization gives the value back", 9), ("a signature is its coordinate followed by its scalar", 4), ("decoded bytes encode to the same bytes", 4)] { floor(r, n, k) }
}
pub fn r02(d: &str, r: &mut Report) {
    r.what = "Abstract interpretation of signing and verification over four curves (25519, secp256k1, and two whose coordinates are shorter or longer than their scalars), with unknown keys, nonces, signatures and messages of several lengths; scalars are compared as polynomials and points as linear combinations. Rules: verification of an unknown signature accepts exactly if the hash of its coordinate and the whole message is a scalar h and every byte of the x-coordinate of h*Y + s*B equals the signature's; signing succeeds whenever h is a scalar (and the response is a valid one), and verification of its result with the matching public key accepts unconditionally; neither can panic.".into();
    r.level = "proof".into(); r.trusted = trusted();
    let mut jobs: Vec<Job> = vec![];
    for m in CURVES { for n in messages(d) {
        jobs.push(one(move |s, fs| {
            let f = |f: &str| at(m, f);
            let anchor = format!("rac::Schnorr::sign:{m}");
            let ev = s.it.events.len();
            match signed(s, m, n) {
                Some(g) => {
                    rule(fs, "no failed operation is ignored", &anchor, heeded(s, ev, g.ok), || format!("signing succeeds under {} though an operation failed", s.show(g.ok)));
                    let want = if m == "sig_secp" { let k = s.it.t.app("secp:nonzero", &[g.s]); let k = s.it.t.sel(k, 0, 1); s.it.t.and(&[g.c, k]) } else { g.c };
                    rule(fs, "signing succeeds", &anchor, implies(s, want, g.ok) && g.ok != Terms::FALSE, || format!("signing succeeds under {}", s.show(g.ok)));
                    let e = out(s, &f("verify"), vec![g.sig.clone(), g.pk.clone(), g.m.clone()]);
                    let ok = e.map(|x| unders(s, &x.1, g.ok)).unwrap_or_default();
                    rule(fs, "a signature verifies with the matching key", &anchor, ok.len() == 1 && (ok[0] == Terms::TRUE || implies(s, g.ok, ok[0])), || format!("a signature of {n} bytes is accepted under {}", s.shows(&ok)));
                    let e = out(s, &f("enc"), vec![g.sig]).map(|x| x.1).unwrap_or_default(); let e = unders(s, &e, g.ok);
                    let sb = out(s, &f("scalar_bytes"), vec![Val::T(g.s)]).map(|x| x.1).unwrap_or_default();
                    rule(fs, "the response answers the challenge", &anchor, e == [g.r, sb].concat(), || format!("the signature is {}", s.shows(&e)));
                }
                None => fs.viol("signing succeeds", anchor.clone(), format!("{anchor}: signing always panics")),
            }
            nopanic(s, fs, &f("sign"));
        }));
        jobs.push(one(move |s, fs| {
            let f = |f: &str| at(m, f);
            let anchor = format!("rac::Schnorr::verify:{m}");
            let l = len(s, &f("dec"), 0); let k = len(s, &f("scalar"), 0);
            let b = s.bytes("b", l, 0); let a = arr(s, &b);
            let msg = s.bytes(&format!("m{n}."), n, 0); let msg = s.slice(&msg);
            let y = unknown(s, &f("verify"), 1, "y");
            let run = |s: &mut Sim| -> Option<(T, T, T)> {
                let (c, sig, _) = decoded(s, &f("dec"), vec![a], "Ok")?;
                // there is a signature to verify only if the bytes decode
                if s.it.t.c(c).is_none() { s.st.pc.push((c, true)) }
                let (_, v) = out(s, &f("verify"), vec![sig, y.clone(), msg.clone()])?;
                let t = arr(s, &b[l - k..]); let (_, sc, _) = decoded(s, &f("scalar"), vec![t], "Ok")?;
                let rb = arr(s, &b[..l - k]); let (h, _) = out(s, &f("hash"), vec![rb, msg.clone()])?;
                let (ch, h, _) = decoded(s, &f("scalar"), vec![h], "Ok")?;
                // the reference evaluation may assume what the verifier has found out
                let na = s.it.alarms.len();
                let (pt, _) = out(s, &f("sum"), vec![y, h, sc])?; let (_, x) = out(s, &f("x"), vec![pt])?;
                s.it.alarms.truncate(na);
                let e = all_eq(s, &x, &b[..l - k]);
                let want = s.it.t.and(&[ch, e]);
                let v = unders(s, &v, c); let w = unders(s, &[want], c);
                Some((c, v[0], w[0]))
            };
            match run(s) {
                Some((c, v, w)) => {
                    let (p, q) = (s.it.t.and(&[c, v]), s.it.t.and(&[c, w]));
                    rule(fs, "acceptance requires the recomputed coordinate in every byte", &anchor, implies(s, p, w), || format!("accepted under {} instead of {} ({n} bytes)", s.show(v), s.show(w)));
                    rule(fs, "a signature that satisfies the equation is accepted", &anchor, implies(s, q, v), || format!("accepted under {} instead of {} ({n} bytes)", s.show(v), s.show(w)));
                }
                None => { let z = s.it.alarms.len(); fs.viol("acceptance requires the recomputed coordinate in every byte", anchor.clone(), format!("{anchor}: cannot be evaluated ({z} alarms)")) }
            }
            nopanic(s, fs, &f("verify"));
        }));
    } }
    run_jobs(wire(d), jobs, r);
    for (n, k) in [("signing succeeds", 15), ("a signature verifies with the matching key", 15), ("the response answers the challenge", 15), ("acceptance requires the recomputed coordinate in every byte", 15), ("a signature that satisfies the equation is accepted", 15)] { floor(r, n, k) }
}
pub fn r03(d: &str, r: &mut Report) {
    r.what = "Abstract interpretation of signing, encoding and decoding over four curves with unknown keys, nonces and messages of several lengths. Rules: the encoding of a signature decodes unconditionally, to the same coordinate and the same scalar, and the decoded signature is accepted like the original.".into();
    r.level = "proof".into(); r.trusted = trusted();
    let mut jobs: Vec<Job> = vec![];
    for m in CURVES { for n in messages(d) { jobs.push(one(move |s, fs| {
        let f = |f: &str| at(m, f);
        let anchor = format!("rac::Schnorr::try_clone_array:{m}");
        let run = |s: &mut Sim, fs: &mut Findings| -> Option<()> {
            let g = signed(s, m, n)?;
            let (_, e) = out(s, &f("enc"), vec![g.sig.clone()])?; let e = unders(s, &e, g.ok);
            let a = arr(s, &e);
            let (c, back, _) = decoded(s, &f("dec"), vec![a], "Ok")?;
            rule(fs, "an encoded signature decodes", &anchor, c == Terms::TRUE || implies(s, g.ok, c), || format!("a signature of {n} bytes decodes under {}", s.show(c)));
            let k = len(s, &f("scalar"), 0); let l = e.len() - k;
            let (_, e2) = out(s, &f("enc"), vec![back.clone()])?; let e2 = unders(s, &e2, c);
            rule(fs, "the coordinate survives", &anchor, e2[..l] == e[..l], || format!("the coordinate of the decoded signature is {}", s.shows(&e2[..l])));
            let kept = e2[l..] == e[l..];
            if !kept {
                let how = if e2[l..] == clamped(s, &e[l..])[..] { "clamped" } else { "altered" };
                fs.viol("the scalar survives", format!("{anchor}:{how}"), format!("{anchor}: the scalar of the decoded signature is {how}: first byte {} instead of {}", s.show(e2[l]), s.show(e[l])));
            } else {
                fs.ok("the scalar survives", 1);
                let (_, v) = out(s, &f("verify"), vec![back, g.pk, g.m])?; let v = unders(s, &v, g.ok);
                rule(fs, "the decoded signature verifies", &anchor, v[0] == Terms::TRUE || implies(s, g.ok, v[0]), || format!("the decoded signature is accepted under {}", s.show(v[0])));
            }
            Some(())
        };
        if run(s, fs).is_none() { fs.viol("an encoded signature decodes", anchor.clone(), format!("{anchor}: cannot be evaluated")) }
        s.follows(fs, m);
    })) } }
    run_jobs(wire(d), jobs, r);
    for (n, k) in [("an encoded signature decodes", 15), ("the coordinate survives", 15), ("the scalar survives", 10), ("the decoded signature verifies", 10)] { floor(r, n, k) }
}
/// the clamping of curve25519 scalars
fn clamped(s: &mut Sim, b: &[T]) -> Vec<T> {
    let mut b = b.to_vec(); let n = b.len(); if n == 0 { return b }
    let k = |s: &mut Sim, x: u128| s.it.t.konst(x, 8);
    let (f8, h7f, h40) = (k(s, 248), k(s, 127), k(s, 64));
    b[0] = s.it.t.bin(Op::And, b[0], f8);
    b[n - 1] = s.it.t.bin(Op::And, b[n - 1], h7f); b[n - 1] = s.it.t.bin(Op::Or, b[n - 1], h40);
    b
}
const VALUES: [&str; 8] = ["array", "empty", "ed_point", "mont_point", "ed_scalar", "secp_point", "secp_scalar", "secp_signature"];
pub fn r04(d: &str, r: &mut Report) {
    r.what = "Abstract interpretation of the wrappers of curve25519 (Edwards and Montgomery form) and secp256k1 with unknown points, scalars and bytes; scalars are compared as polynomials and points as linear combinations. Rules: every value is what its encoding, and every point what its compressed form, decodes to; a 25519 scalar decodes to the clamped bytes; the base point is the standard generator, exponentiation and multiplication of points are those of the group, scalars add, subtract and multiply as in the field; the x-coordinate is the one of the encoding.".into();
    r.level = "proof".into(); r.trusted = trusted();
    let mut jobs: Vec<Job> = vec![];
    for m in VALUES { jobs.push(one(move |s, fs| {
        let f = |f: &str| at(m, f);
        let anchor = format!("rac::LineValid:{m}");
        let x = unknown(s, &f("make"), 0, "x"); let want = arg_flat(s, &f("make"), 0, &x);
        if let Some((_, e)) = out(s, &f("enc"), vec![x]) {
            let a = arr(s, &e);
            if m != "ed_scalar" { if let Some((c, _, y)) = decoded(s, &f("dec"), vec![a], "Ok") { rule(fs, "what was encoded decodes to the same", &anchor, c == Terms::TRUE && y == want, || format!("the encoding decodes under {} to {}", s.show(c), s.shows(&y))) } }
            let b = s.bytes("b", e.len(), 0); let a = arr(s, &b);
            if let Some((c, y, _)) = decoded(s, &f("dec"), vec![a], "Ok") {
                if let Some((_, e)) = out(s, &f("enc"), vec![y]) {
                    let e = unders(s, &e, c);
                    let want = if m == "ed_scalar" { clamped(s, &b) } else { b.clone() };
                    // a point of curve25519 has several encodings
                    if m != "ed_point" { rule(fs, "decoded bytes encode to the same bytes", &anchor, e == want, || format!("decoded bytes are encoded again as {}", s.shows(&e))) }
                }
                if m.starts_with("array") || m.starts_with("empty") || m == "ed_scalar" || m == "mont_point" { rule(fs, "every encoding of a total type decodes", &anchor, c == Terms::TRUE, || format!("decodes under {}", s.show(c))) }
            }
        }
        s.clean(fs, m);
    })) }
    for m in ["sig_ed", "sig_secp"] { jobs.push(one(move |s, fs| {
        let f = |f: &str| at(m, f);
        let of = if m == "sig_ed" { "25519" } else { "secp256k1" };
        let base = if m == "sig_ed" { s.it.t.app("B", &[]) } else { s.it.t.app("secpB", &[]) };
        let (x, y) = (unknown(s, &f("add_ff"), 0, "x"), unknown(s, &f("add_ff"), 1, "y"));
        let (xt, yt) = (s.it.as_t(&x), s.it.as_t(&y)); let (xp, yp) = (poly(&s.it, xt), poly(&s.it, yt));
        for (op, want) in [("add_ff", plus(&xp, &yp)), ("sub_ff", minus(&xp, &yp)), ("mul_ff", times(&xp, &yp))] {
            let anchor = format!("rac::Scalar::{op}:{of}");
            let want = unpoly(&mut s.it, &want); let ev = s.it.events.len();
            match decoded(s, &f(op), vec![x.clone(), y.clone()], "Ok") {
                Some((c, _, z)) => { rule(fs, "no failed operation is ignored", &anchor, heeded(s, ev, c), || format!("succeeds under {} though an operation failed", s.show(c)));
                    let must = if m == "sig_secp" && op != "mul_ff" { let k = s.it.t.app("secp:nonzero", &[want]); s.it.t.sel(k, 0, 1) } else { Terms::TRUE };
                    rule(fs, "scalars are computed with as in the field", &anchor, c != Terms::FALSE && implies(s, must, c) && z == [want], || format!("the result is, under {}, {}", s.show(c), s.shows(&z))) }
                None => fs.viol("scalars are computed with as in the field", anchor.clone(), format!("{anchor} always panics")),
            }
        }
        let anchor = format!("rac::Curve:{of}");
        if let Some((_, p)) = out(s, &f("public"), vec![x.clone()]) { let l = lin(&s.it, p[0]); rule(fs, "the group is the one of the curve", &anchor, l.len() == 1 && l.get(&base) == Some(&xp), || format!("the multiple of the base point is {}", s.shows(&p))) }
        let q = unknown(s, &f("sum"), 0, "q"); let qt = s.it.as_t(&q);
        let na = s.it.alarms.len();
        if let Some((_, p)) = out(s, &f("sum"), vec![q.clone(), x, y]) {
            let l = BTreeMap::from([(qt, xp), (base, yp)]); let want = unlin(&mut s.it, &l);
            let p = p.iter().map(|t| match s.it.t.k(*t) { K::Ite(..) => *t, _ => *t }).collect::<Vec<_>>();
            rule(fs, "the group is the one of the curve", &anchor, p == [want], || format!("x*Q + y*B is {} instead of {}", s.shows(&p), s.show(want)));
        }
        s.it.alarms.truncate(na);
        for (root, how) in [("pack", "compressed")] {
            if let Some((_, e)) = out(s, &f(root), vec![q.clone()]) {
                let a = arr(s, &e);
                if let Some((c, _, y)) = decoded(s, &f("unpack"), vec![a], "Ok") { rule(fs, "a compressed point decompresses to the same", &anchor, c == Terms::TRUE && y == [qt], || format!("the {how} form gives under {} {}", s.show(c), s.shows(&y))) }
                if let Some((_, x)) = out(s, &f("x"), vec![q.clone()]) {
                    let mut want: Vec<T> = if m == "sig_ed" { e.clone() } else { e[1..].to_vec() };
                    if m == "sig_ed" { let k = s.it.t.konst(127, 8); want[31] = s.it.t.bin(Op::And, want[31], k) }
                    rule(fs, "the coordinate is the one of the encoding", &anchor, x == want, || format!("the coordinate is {}", s.shows(&x)));
                }
            }
        }
        s.clean(fs, of);
    })) }
    jobs.push(one(|s, fs| {
        let anchor = "rac::Curve:montgomery";
        let x = unknown(s, "mont::public", 0, "x"); let xt = s.it.as_t(&x);
        let b = s.it.t.app("B", &[]); let mb = s.it.t.app("montgomery", &[b]);
        let mut v: Vec<T> = (0..32).map(|i| s.it.t.sel(mb, i, 8)).collect(); v.push(xt);
        let want = s.it.t.app("ladder", &v); let want: Vec<T> = (0..32).map(|i| s.it.t.sel(want, i, 8)).collect();
        if let Some((_, p)) = out(s, "mont::public", vec![x]) { rule(fs, "the group is the one of the curve", anchor, p == want, || format!("the multiple of the base point is {}", s.shows(&p))) }
        let q = unknown(s, "mont::pack", 0, "q"); let qf = arg_flat(s, "mont::pack", 0, &q);
        if let Some((_, e)) = out(s, "mont::pack", vec![q]) { let a = arr(s, &e); if let Some((c, _, y)) = decoded(s, "mont::unpack", vec![a], "Ok") { rule(fs, "a compressed point decompresses to the same", anchor, c == Terms::TRUE && y == qf, || format!("gives under {} {}", s.show(c), s.shows(&y))) } }
        s.clean(fs, "montgomery");
    }));
    run_jobs(wire(d), jobs, r);
    for (n, k) in [("what was encoded decodes to the same", 7), ("decoded bytes encode to the same bytes", 7), ("scalars are computed with as in the field", 6), ("the group is the one of the curve", 5), ("a compressed point decompresses to the same", 3), ("the coordinate is the one of the encoding", 2)] { floor(r, n, k) }
}
