//! Properties of the noise layer: every operation evaluated on unknown keys, counters and messages.
use crate::check::Report;
use crate::interp::*;
use crate::kyber::{hash_of, run_jobs, Findings, Job};
use crate::models::{sealed, Sealed};
use crate::sim::Sim;
use crate::term::*;
use crate::util;
use fxhash::FxHashMap;
use ir::*;
use std::rc::Rc;

pub fn wire(dir: &str) -> &'static Program { Box::leak(Box::new(util::load(dir, "wire"))) }
pub fn trusted() -> Vec<String> {
    vec!["rustc MIR of the workspace, core, alloc (indexing and views), generic-array and aead as exported by the driver".into(), "the interpreter's term rules".into(), "meaning of digest, hkdf, aead and Vec as documented (a hash is a function of the absorbed bytes; opening gives the plaintext exactly when the tag was made for this key, nonce, associated data and text)".into()]
}
/// the two configurations analysed: name, hash, its length and block, little-endian nonces
#[derive(Clone, Copy)]
pub struct Cfg { pub ns: &'static str, pub hash: &'static str, pub l: usize, pub b: usize, pub le: bool }
pub const CFGS: [Cfg; 2] = [Cfg { ns: "noise::a", hash: "Sha3_256", l: 32, b: 136, le: true }, Cfg { ns: "noise::b", hash: "Sha512", l: 64, b: 128, le: false }];
const KEY: usize = 32;
const TAG: usize = 16;
/// interval of the rotor of the harness
const INTERVAL: usize = 3;

fn each(f: impl Fn(&mut Sim, Cfg, &mut Findings) + Send + Clone + 'static) -> Vec<Job> {
    CFGS.into_iter().map(|c| { let f = f.clone(); let j: Job = Box::new(move |p| { let mut s = Sim::new(p, c.ns); let mut fs = Findings::default(); f(&mut s, c, &mut fs); fs }); j }).collect()
}
fn rule(fs: &mut Findings, s: &Sim, rule: &str, anchor: &str, holds: bool, what: impl FnOnce() -> String) { let ns = s.ns.clone(); fs.must(rule, holds, || anchor.into(), || format!("{anchor}: {} ({ns})", what())) }

// ---------------------------------------------------------------- observation
/// the bytes of a nonce: four zeros and a counter
fn nonce_of(s: &mut Sim, c: Cfg, n: T) -> Vec<T> {
    let z = s.it.t.konst(0, 8);
    let mut b: Vec<T> = (0..8).map(|i| s.it.t.slice(n, i * 8, 8, 8)).collect();
    if !c.le { b.reverse() }
    let mut v = vec![z; 4]; v.extend(b); v
}
fn nonce_k(s: &mut Sim, c: Cfg, n: u64) -> Vec<T> { let n = s.it.us(n); nonce_of(s, c, n) }
fn since(s: &Sim, k: usize, kind: &str) -> Vec<Sealed> { s.it.events[k..].iter().filter(|e| e.kind == kind).filter_map(|e| sealed(&s.it.t, e.terms[0])).collect() }
/// key and nonce the next encryption in a direction would use
fn probe(s: &mut Sim, u: &Val) -> Option<(T, Vec<T>)> {
    let keep = s.st.clone(); let k = s.it.events.len();
    let u = s.at("d_enc", 0, u.clone());
    let x = s.bytes("probe", 1, 0); let (ad, x) = (s.slice(&[]), s.slice(&x));
    s.call("d_enc", vec![u, ad, x]);
    let e = since(s, k, "seal"); s.it.events.truncate(k); s.st = keep;
    e.into_iter().next().map(|e| (e.aead, e.nonce))
}
/// key and nonce the next decryption in a direction would use
fn probe_open(s: &mut Sim, u: &Val) -> Option<(T, Vec<T>)> {
    let keep = s.st.clone(); let k = s.it.events.len(); let f = s.it.force;
    s.it.force = Some(false);
    let u = s.at("d_dec", 0, u.clone());
    let x = s.bytes("probe", 1, 0); let tg = s.bytes("probetag", TAG, 0);
    let (ad, x, tv) = (s.slice(&[]), s.slice(&x), s.arr(&tg)); let tp = s.at("d_dec", 3, tv);
    s.call("d_dec", vec![u, ad, x, tp]);
    let e = since(s, k, "open"); s.it.events.truncate(k); s.st = keep; s.it.force = f;
    e.into_iter().next().map(|e| (e.aead, e.nonce))
}
/// one operation in a direction; the state afterwards
fn step(s: &mut Sim, u: &Val, op: char) -> Option<Val> { step_n(s, u, op, 3, 2) }
/// lengths of messages and of associated data that operations are followed with
const SIZES: [usize; 17] = [0, 1, 3, 12, 15, 16, 17, 31, 32, 33, 64, 65, 100, 128, 136, 255, 300];
/// these, and the lengths at which the code could change its behaviour
fn sizes(s: &Sim) -> Vec<usize> {
    static B: std::sync::OnceLock<Vec<usize>> = std::sync::OnceLock::new();
    let b = B.get_or_init(|| util::boundaries(s.it.p, "vru_noise", 66000));
    SIZES.into_iter().chain(b.iter().copied().filter(|n| !SIZES.contains(n))).collect()
}
/// the data length is paired with one of the associated data, and each of the latter with one of the data
fn shapes(s: &Sim) -> Vec<(usize, usize)> { let z = sizes(s); let mut v: Vec<(usize, usize)> = z.iter().map(|n| (*n, SIZES[(n * 7 + 2) % SIZES.len()])).collect(); v.extend(z[SIZES.len()..].iter().map(|n| (16, *n))); v }
fn step_n(s: &mut Sim, u: &Val, op: char, n: usize, na: usize) -> Option<Val> {
    let i = s.it.t.n.len();
    let up = s.at("d_enc", 0, u.clone());
    let i = if n + na > 2000 { 0 } else { i };
    let x = s.bytes(&format!("m{i}"), n, 0); let ad = s.bytes(&format!("ad{i}"), na, 0);
    let (ad, x) = (s.slice(&ad), s.slice(&x));
    if op == 'e' { s.call("d_enc", vec![up.clone(), ad, x])?; }
    else {
        let tg = s.bytes(&format!("t{i}"), TAG, 0); let tv = s.arr(&tg); let tp = s.at("d_dec", 3, tv);
        let f = s.it.force; s.it.force = Some(op == 'd');
        let r = s.call("d_dec", vec![up.clone(), ad, x, tp]);
        s.it.force = f; r?;
    }
    Some(s.get(&up))
}
/// a fresh pair of directions for an unknown chaining key
fn fresh_cipher(s: &mut Sim) -> Option<Val> { let u = s.unknown("u_finish", 0, "state"); let r = s.call("u_finish", vec![u])?; Some(s.part("u_finish", &r, 0)) }
fn dir(s: &mut Sim, c: &Val, which: &str) -> Option<Val> { let c = c.clone(); s.call(which, vec![c]) }

const ENC: &str = "vru_noise::Unidirectional::encrypt";
const DEC: &str = "vru_noise::Unidirectional::decrypt";
const NEXT: &str = "vru_noise::Unidirectional::next";

/// replace counters (leaves that were 0, 1, 2, .. after as many operations) by an unknown number
fn generalise(s: &mut Sim, v: &[Val; 3], n: T, found: &mut Vec<u16>) -> Val {
    match (&v[0], &v[1], &v[2]) {
        (Val::T(a), Val::T(b), Val::T(c)) => {
            if let (Some(x), Some(y), Some(z)) = (s.it.t.c(*a), s.it.t.c(*b), s.it.t.c(*c)) {
                let w = s.it.t.w(*a);
                if y == x.wrapping_add(1) && z == x.wrapping_add(2) { found.push(w); let m = s.it.t.trunc(n, w); let k = s.it.t.konst(x, w); return Val::T(s.it.t.bin(Op::Add, m, k)) }
            }
            v[0].clone()
        }
        (Val::Agg(a), Val::Agg(b), Val::Agg(c)) if a.len() == b.len() && b.len() == c.len() => { let r = (0..a.len()).map(|i| generalise(s, &[a[i].clone(), b[i].clone(), c[i].clone()], n, found)).collect(); Val::Agg(Rc::new(r)) }
        _ => v[0].clone(),
    }
}
/// a direction whose counter is any number
fn any_counter(s: &mut Sim, fs: &mut Findings, c: &Val, which: &str) -> Option<(Val, T)> {
    let u0 = dir(s, c, which)?;
    let u1 = step(s, &u0, 'e')?; let u2 = step(s, &u1, 'e')?;
    let n = s.it.t.atom("n", 64, 0, u64::MAX as u128 - 16, 0);
    let mut found = vec![];
    let u = generalise(s, &[u0, u1, u2], n, &mut found);
    let narrow = found.iter().any(|w| *w == 16 || *w == 32);
    rule(fs, s, "the counter has 64 bits", NEXT, !narrow, || format!("the counter of a direction is kept in {found:?} bits"));
    if !found.contains(&64) { fs.notes.push(format!("{}: no 64-bit counter among the components of a direction: only the first operations were followed", s.ns)); return None }
    Some((u, n))
}

pub fn n01(d: &str, r: &mut Report) {
    r.what = "Abstract interpretation of the transport cipher over unknown keys, counters and messages. The direction left by finishing a handshake is followed through sequences of encryptions, accepted and refused decryptions; then its counter is replaced by an unknown 64-bit number and one operation is followed. Rules: the nonce given to the AEAD is four zero bytes and the counter in the configured byte order; the first is 0; a successful operation adds one; a refused one changes neither the key nor the nonce used next; the other direction is never touched.".into();
    r.level = "proof".into(); r.trusted = trusted();
    let jobs = each(|s, c, fs| {
        let Some(cy) = fresh_cipher(s) else { s.clean(fs, "finish"); return };
        for which in ["c_send", "c_receive"] {
            for (j, ops) in ["eeeeeeeee", "ddddddddd", "exdxxexdeed", "xxd", "dxexxxexexdxd"].into_iter().enumerate() {
                let Some(mut u) = dir(s, &cy, which) else { break };
                let mut n = 0u64;
                for (i, op) in ops.chars().chain("-".chars()).enumerate() {
                    let want = nonce_k(s, c, n);
                    let (a, b) = (probe(s, &u), probe_open(s, &u));
                    rule(fs, s, "the nonce is the number of successful operations", ENC, a.as_ref().map(|a| a.1 == want).unwrap_or(false), || format!("after `{ops}` up to {n} successful operations the nonce is {}", a.as_ref().map(|a| s.shows(&a.1)).unwrap_or("none".into())));
                    rule(fs, s, "the nonce is the number of successful operations", DEC, b.as_ref().map(|b| b.1 == want).unwrap_or(false), || format!("after {n} successful operations the nonce is {}", b.as_ref().map(|b| s.shows(&b.1)).unwrap_or("none".into())));
                    rule(fs, s, "both operations use the key of the direction", DEC, a.as_ref().map(|a| a.0) == b.as_ref().map(|b| b.0), || "encryption and decryption use different keys in the same state".into());
                    if op == '-' { break }
                    let Some(v) = step_n(s, &u, op, SIZES[(i + j) % SIZES.len()], SIZES[(3 * i + j) % SIZES.len()]) else { rule(fs, s, "every operation ends", if op == 'e' { ENC } else { DEC }, false, || format!("operation {n} of `{ops}` always panics")); break };
                    if op == 'x' {
                        let c2 = probe(s, &v);
                        rule(fs, s, "a refused message changes nothing", DEC, c2 == a, || format!("after a refused message the next nonce and key are {} instead of {}", c2.as_ref().map(|x| s.shows(&x.1)).unwrap_or_default(), a.as_ref().map(|x| s.shows(&x.1)).unwrap_or_default()));
                    } else { n += 1 }
                    u = v;
                    fs.count("operations followed", 1);
                }
            }
            // any counter
            if let Some((u, n)) = any_counter(s, fs, &cy, which) {
                let one = s.it.us(1); let n1 = s.it.t.bin(Op::Add, n, one);
                let (w0, w1) = (nonce_of(s, c, n), nonce_of(s, c, n1));
                let a = probe(s, &u);
                rule(fs, s, "the nonce is the counter", ENC, a.as_ref().map(|a| a.1 == w0).unwrap_or(false), || format!("for counter n the nonce is {}", a.as_ref().map(|a| s.shows(&a.1)).unwrap_or_default()));
                let z = &sizes(s);
                for (op, f, n, na) in [('e', ENC), ('d', DEC), ('x', DEC)].into_iter().flat_map(|(o, f)| z.iter().flat_map(move |n| [0, 5].into_iter().chain(if *n == 16 { z.clone() } else { vec![] }).map(move |na| (o, f, *n, na)))) {
                    let keep = s.st.clone();
                    let Some(v) = step_n(s, &u, op, n, na) else { rule(fs, s, "every operation ends", f, false, || format!("an operation on {n} bytes always panics")); continue };
                    let b = probe(s, &v);
                    if op == 'x' { rule(fs, s, "a refused message changes nothing", f, b == a, || format!("after a refused message the nonce is {}", b.as_ref().map(|b| s.shows(&b.1)).unwrap_or_default())) }
                    else { rule(fs, s, "a successful operation adds one to the counter", f, b.as_ref().map(|b| b.1 == w1).unwrap_or(false), || format!("for counter n the next nonce is {}", b.as_ref().map(|b| s.shows(&b.1)).unwrap_or_default())) }
                    fs.count("operations followed", 1);
                    if n + na > 2000 { s.st = keep }
                }
            }
        }
        // the pair: one operation touches one direction
        for (root, own, other, f) in [("c_enc", "c_send", "c_receive", "vru_noise::Cipher::encrypt"), ("c_enc_ext", "c_send", "c_receive", "vru_noise::Cipher::encrypt_ext"), ("c_dec", "c_receive", "c_send", "vru_noise::Cipher::decrypt"), ("c_dec_ext", "c_receive", "c_send", "vru_noise::Cipher::decrypt_ext")] {
            let sh = shapes(s);
            for (good, (n, na)) in [true, false].into_iter().flat_map(|g| sh.iter().map(move |n| (g, *n))) {
                if !good && root.starts_with("c_enc") { continue }
                if root == "c_dec_ext" && n < TAG && good { continue }
                let keep = s.st.clone();
                let Some(v) = pair_op(s, &cy, root, (n, na), good).map(|x| x.0) else { continue };
                let (o0, o1) = (dir(s, &cy, own), dir(s, &v, own));
                let (p0, p1) = (dir(s, &cy, other), dir(s, &v, other));
                let (Some(o0), Some(o1), Some(p0), Some(p1)) = (o0, o1, p0, p1) else { continue };
                let (o0, o1, p0, p1) = (probe(s, &o0), probe(s, &o1), probe(s, &p0), probe(s, &p1));
                rule(fs, s, "the other direction is not touched", f, p0.is_some() && p0 == p1, || "the state of the other direction changes".into());
                let want = nonce_k(s, c, good as u64);
                rule(fs, s, "one operation, one step in its own direction", f, o1.as_ref().map(|o| o.1 == want).unwrap_or(false) && (good || o0 == o1), || format!("after {} the next nonce of its direction is {}", if good { "one message" } else { "a refused message" }, o1.as_ref().map(|o| s.shows(&o.1)).unwrap_or_default()));
                fs.count("operations followed", 1);
                if n + na > 2000 { s.st = keep }
            }
        }
        s.clean(fs, "transport");
    });
    run_jobs(wire(d), jobs, r);
    let n = r.counted("operations followed"); r.floor("operations followed", n, 300);
}
/// one operation of a pair of directions on `n` bytes of data; the pair afterwards, the data before and after, the tag before or after
#[derive(Clone, Default)]
struct Did { before: Vec<T>, after: Vec<T>, ad: Vec<T>, tag: Vec<T>, ok: Option<bool> }
fn pair_op(s: &mut Sim, cy: &Val, root: &str, (n, na): (usize, usize), good: bool) -> Option<(Val, Did)> {
    let i = s.it.t.n.len();
    let cp = s.at(root, 0, cy.clone());
    let i = if n + na > 2000 { 0 } else { i };
    let x = s.bytes(&format!("data{i}"), n, 0); let adt = s.bytes(&format!("adata{i}"), na, 0);
    let (ad, xs) = (s.slice(&adt), if root.ends_with("_ext") { s.vec(&x) } else { s.slice(&x) });
    let f = s.it.force; s.it.force = Some(good);
    let mut d = Did { before: x, ad: adt, ..Default::default() };
    let r = match root {
        "c_dec" | "d_dec" => { let tg = s.bytes(&format!("tg{i}"), TAG, 0); d.tag = tg.clone(); let tv = s.arr(&tg); let tp = s.at(root, 3, tv); s.call(root, vec![cp.clone(), ad, xs.clone(), tp]) }
        _ => s.call(root, vec![cp.clone(), ad, xs.clone()]),
    };
    s.it.force = f;
    let r = r?;
    if root == "c_enc" || root == "d_enc" { let t = s.ret_ty(root); d.tag = s.flat(&r, t) }
    if root.contains("dec") { let (c, _) = s.result(root, &r); d.ok = s.it.t.c(c).map(|v| v == 1) }
    d.after = s.text(&xs);
    Some((s.get(&cp), d))
}

pub fn n02(d: &str, r: &mut Report) {
    r.what = "Abstract interpretation of every sealing and opening operation over unknown keys, messages, tags and associated data of several lengths, once for each verdict of the AEAD. Rules: the operation hands the AEAD exactly the current key and nonce, the given associated data (for handshake messages the current transcript hash), the given text and the given tag; it returns success exactly when the AEAD accepted; the buffer then holds the AEAD's output in full; what one side seals the other opens to the original; in the buffer forms the tag is the last 16 bytes.".into();
    r.level = "proof".into(); r.trusted = trusted();
    let jobs = each(|s, c, fs| {
        let Some(cy) = fresh_cipher(s) else { s.clean(fs, "finish"); return };
        for (n, na) in shapes(s) {
            for root in ["c_enc", "c_enc_ext", "c_dec", "c_dec_ext"] {
                let f = format!("vru_noise::Cipher::{}", match root { "c_enc" => "encrypt", "c_enc_ext" => "encrypt_ext", "c_dec" => "decrypt", _ => "decrypt_ext" });
                let own = if root.starts_with("c_enc") { "c_send" } else { "c_receive" };
                let Some(u) = dir(s, &cy, own) else { continue };
                let Some((key, nonce)) = probe(s, &u) else { continue };
                for good in [true, false] {
                    let k = s.it.events.len();
                    let Some((_, did)) = pair_op(s, &cy, root, (n, na), good) else { rule(fs, s, "every operation ends", &f, false, || format!("always panics on {n} bytes")); continue };
                    if root.starts_with("c_enc") {
                        if !good { continue }
                        let e = since(s, k, "seal");
                        seal_rules(s, fs, &f, &e, key, &nonce, &did.ad, &did.before);
                        let Some(w) = s.it.events[k..].iter().find(|e| e.kind == "seal").map(|e| e.terms[0]) else { continue };
                        let a = s.it.t.app_name(w).unwrap().1.to_vec(); let tg = s.it.t.app("tag", &a);
                        let mut want: Vec<T> = (0..n as u32).map(|i| s.it.t.sel(w, i, 8)).collect(); let tw: Vec<T> = (0..TAG as u32).map(|i| s.it.t.sel(tg, i, 8)).collect();
                        if root == "c_enc_ext" { want.extend(&tw) } else { rule(fs, s, "the tag of the AEAD is returned", &f, did.tag == tw, || "the tag returned is not the AEAD's".into()) }
                        rule(fs, s, "the buffer holds the AEAD's output in full", &f, did.after == want, || format!("{n} bytes are sealed to {} bytes that are not the ciphertext{}", did.after.len(), if root == "c_enc_ext" { " followed by the tag" } else { "" }));
                    } else {
                        let short = root == "c_dec_ext" && n < TAG;
                        let (text, tag) = if root == "c_dec_ext" { if short { (vec![], vec![]) } else { (did.before[..n - TAG].to_vec(), did.before[n - TAG..].to_vec()) } } else { (did.before.clone(), did.tag.clone()) };
                        let e = since(s, k, "open");
                        if short { rule(fs, s, "a message without a tag is refused", &f, did.ok == Some(false), || format!("a message of {n} bytes is not refused")); continue }
                        open_rules(s, fs, &f, &e, key, &nonce, &did.ad, &text, &tag, good, did.ok);
                        if good { let w = s.it.events[k..].iter().find(|e| e.kind == "open").map(|e| e.terms[0]); if let Some(w) = w { let want: Vec<T> = (0..text.len() as u32).map(|i| s.it.t.sel(w, i, 8)).collect(); rule(fs, s, "the buffer holds the AEAD's output in full", &f, did.after == want, || format!("{n} bytes are opened to {} bytes that are not the plaintext", did.after.len())) } }
                    }
                    fs.count("operations followed", 1);
                }
            }
            // what one side seals the other opens
            for (e, dd) in [("c_enc", "c_dec"), ("c_enc_ext", "c_dec_ext")] {
                let x = s.bytes("plain", n, 0); let ad = s.bytes("about", 4, 0);
                let (adv, xv) = (s.slice(&ad), if e == "c_enc_ext" { s.vec(&x) } else { s.slice(&x) });
                let a = s.at(e, 0, cy.clone());
                let Some(r) = s.call(e, vec![a, adv.clone(), xv.clone()]) else { continue };
                let Some(sw) = s.call("c_swap", vec![cy.clone()]) else { continue };
                let b = s.at(dd, 0, sw);
                let mut args = vec![b, adv, xv.clone()];
                if dd == "c_dec" { let tp = s.at(dd, 3, r); args.push(tp) }
                let Some(r) = s.call(dd, args) else { continue };
                let (ok, _) = s.result(dd, &r); let y = s.text(&xv);
                rule(fs, s, "what one side seals the other opens", "vru_noise::Cipher::decrypt", ok == Terms::TRUE && y == x, || format!("a sealed message of {n} bytes is not opened to the original by the other side"));
                fs.count("operations followed", 2);
            }
        }
        // handshake messages
        for n in sizes(s) {
            for (ro, count) in [("s", 0u64), ("t", 1), ("x", 300), ("y", 301)] {
                for kind in ["enc", "enc_ext", "dec"] {
                    if (kind == "enc_ext" && ro != "s") || (kind == "dec" && ro == "y") { continue }
                    let root = format!("{ro}_{kind}");
                    let f = format!("vru_noise::SymmetricState::{}", match kind { "enc" => "encrypt", "enc_ext" => "encrypt_ext", _ => "decrypt" });
                    for good in [true, false] {
                        if kind != "dec" && !good { continue }
                        let k = s.it.events.len();
                        let st = s.unknown(&root, 0, "hs");
                        let key = hs_key(s, &st, ro); let h = hs_hash(s, &st, ro);
                        s.it.events.truncate(k);
                        let Some(did) = hs_op(s, &st, &root, n, good) else { rule(fs, s, "every operation ends", &f, false, || format!("always panics on {n} bytes")); continue };
                        let nonce = nonce_k(s, c, count);
                        let Some(key) = key else { continue };
                        let Some(w) = s.it.events[k..].iter().find(|e| e.kind == if kind == "dec" { "open" } else { "seal" }).map(|e| e.terms[0]) else { rule(fs, s, "the AEAD is used", &f, false, || "no AEAD operation".into()); continue };
                        if kind == "dec" {
                            let e = since(s, k, "open");
                            open_rules(s, fs, &f, &e, key, &nonce, &h, &did.before, &did.tag, good, did.ok);
                            let want: Vec<T> = (0..n as u32).map(|i| s.it.t.sel(w, i, 8)).collect();
                            if good { rule(fs, s, "the buffer holds the AEAD's output in full", &f, did.after == want, || format!("{n} bytes are not opened to the plaintext")) }
                        } else {
                            let e = since(s, k, "seal");
                            seal_rules(s, fs, &f, &e, key, &nonce, &h, &did.before);
                            let a = s.it.t.app_name(w).unwrap().1.to_vec(); let tg = s.it.t.app("tag", &a);
                            let mut want: Vec<T> = (0..n as u32).map(|i| s.it.t.sel(w, i, 8)).collect(); let tw: Vec<T> = (0..TAG as u32).map(|i| s.it.t.sel(tg, i, 8)).collect();
                            if kind == "enc_ext" { want.extend(&tw) } else { rule(fs, s, "the tag of the AEAD is returned", &f, did.tag == tw, || "the tag returned is not the AEAD's".into()) }
                            rule(fs, s, "the buffer holds the AEAD's output in full", &f, did.after == want, || format!("{n} bytes are sealed to {} bytes that are not the ciphertext and tag", did.after.len()));
                        }
                        fs.count("operations followed", 1);
                    }
                }
            }
        }
        s.clean(fs, "messages");
    });
    run_jobs(wire(d), jobs, r);
    let n = r.counted("operations followed"); r.floor("operations followed", n, 300);
}
fn seal_rules(s: &mut Sim, fs: &mut Findings, f: &str, e: &[Sealed], key: T, nonce: &[T], ad: &[T], text: &[T]) {
    rule(fs, s, "one message, one use of the AEAD", f, e.len() == 1, || format!("{} AEAD operations", e.len()));
    for e in e {
        rule(fs, s, "sealed under the current key", f, e.aead == key, || format!("the key is {}", s.show(e.aead)));
        rule(fs, s, "sealed under the current nonce", f, e.nonce == nonce, || format!("the nonce is {}", s.shows(&e.nonce)));
        rule(fs, s, "sealed with the given associated data", f, e.ad == ad, || format!("the associated data is {}", s.shows(&e.ad)));
        rule(fs, s, "the whole message is sealed", f, e.text == text, || format!("the text is {}", s.shows(&e.text)));
    }
}
fn open_rules(s: &mut Sim, fs: &mut Findings, f: &str, e: &[Sealed], key: T, nonce: &[T], ad: &[T], text: &[T], tag: &[T], good: bool, ok: Option<bool>) {
    rule(fs, s, "one message, one use of the AEAD", f, e.len() == 1, || format!("{} AEAD operations", e.len()));
    for e in e {
        rule(fs, s, "opened under the current key", f, e.aead == key, || format!("the key is {}", s.show(e.aead)));
        rule(fs, s, "opened under the current nonce", f, e.nonce == nonce, || format!("the nonce is {}", s.shows(&e.nonce)));
        rule(fs, s, "opened with the given associated data", f, e.ad == ad, || format!("the associated data is {}", s.shows(&e.ad)));
        let mut w = text.to_vec(); w.extend(tag);
        rule(fs, s, "exactly the received text and tag are verified", f, e.text == w, || format!("text and tag verified are {}", s.shows(&e.text)));
    }
    rule(fs, s, "success exactly when the AEAD accepted", f, ok == Some(good), || format!("the AEAD {} but the result is {}", if good { "accepted" } else { "refused" }, match ok { Some(true) => "success", Some(false) => "an error", None => "undecided" }));
}
/// key of a handshake state, by what an encryption uses
fn hs_key(s: &mut Sim, st: &Val, ro: &str) -> Option<T> {
    let keep = s.st.clone(); let k = s.it.events.len();
    let x = s.bytes("hprobe", 1, 0); let xs = s.slice(&x);
    s.call(&format!("{ro}_enc"), vec![st.clone(), xs]);
    let e = since(s, k, "seal"); s.it.events.truncate(k); s.st = keep;
    e.first().map(|e| e.aead)
}
fn hs_hash(s: &mut Sim, st: &Val, ro: &str) -> Vec<T> {
    let root = match ro { "u" => "u_hash", "t" => "t_hash", _ => "s_hash" };
    // states that differ in the counter alone share their representation
    let p = s.at(root, 0, st.clone());
    let Some(r) = s.call(root, vec![p]) else { return vec![] };
    let t = s.ret_ty(root); s.flat(&r, t)
}
fn hs_op(s: &mut Sim, st: &Val, root: &str, n: usize, good: bool) -> Option<Hs> {
    let x = s.bytes(&format!("hm{n}"), n, 0);
    let xs = if root.ends_with("_ext") { s.vec(&x) } else { s.slice(&x) };
    let mut d = Hs { before: x, ..Default::default() };
    let f = s.it.force; s.it.force = Some(good);
    let r = if root.ends_with("dec") { let tg = s.bytes(&format!("ht{n}"), TAG, 0); d.tag = tg.clone(); let tv = s.arr(&tg); s.call(root, vec![st.clone(), xs.clone(), tv]) } else { s.call(root, vec![st.clone(), xs.clone()]) };
    s.it.force = f;
    let r = r?;
    if root.ends_with("dec") { let (c, v) = s.result(root, &r); d.ok = s.it.t.c(c).map(|v| v == 1); d.next = v }
    else if root.ends_with("_ext") { d.next = r }
    else { d.next = s.part(root, &r, 0); let tv = s.part(root, &r, 1); let ty = match &s.it.p.tys[s.ret_ty(root) as usize].kind { TyKind::Tuple(v) => v[1], _ => 0 }; d.tag = s.flat(&tv, ty) }
    d.after = s.text(&xs);
    Some(d)
}
#[derive(Clone)]
struct Hs { before: Vec<T>, after: Vec<T>, tag: Vec<T>, ok: Option<bool>, next: Val }
impl Default for Hs { fn default() -> Self { Hs { before: vec![], after: vec![], tag: vec![], ok: None, next: Val::Undef } } }

pub fn n04(d: &str, r: &mut Report, tier: &str) {
    r.what = "Abstract interpretation of the transcript over unknown states and messages of every length from 0 to beyond two blocks of the hash (four in the thorough tier). Rule: the transcript hash after mixing data is the complete output of one hash over the old transcript hash and the data; after a handshake encryption or decryption, over the old transcript hash, the whole ciphertext and the whole tag in this order; keys stay the same under mixing; both sides get the same value. A new state starts from the protocol name, zero-padded to the hash length, or its hash if longer.".into();
    r.level = "proof".into(); r.trusted = trusted();
    let deep = tier == "thorough";
    let mut jobs = vec![];
    for part in 0..8usize { jobs.extend(each(move |s, c, fs| {
        let top = if deep { 5 * c.b + 40 } else { 2 * c.b + 40 };
        let far = sizes(s).into_iter().filter(|n| *n > top);
        for n in (0..=top).filter(|n| n % 8 == part).chain(far.enumerate().filter(|n| n.0 % 8 == part).map(|n| n.1).collect::<Vec<_>>()) {
            let hash = |s: &Sim, v: &[T]| hash_of(&s.it.t, v).filter(|_| v.len() == c.l);
            for root in ["s_enc", "s_enc_ext", "s_dec"] {
                let f = format!("vru_noise::SymmetricState::{}", match root { "s_enc" => "encrypt", "s_enc_ext" => "encrypt_ext", _ => "decrypt" });
                let st = s.unknown(root, 0, "hs");
                let h = hs_hash(s, &st, "s");
                let Some(did) = hs_op(s, &st, root, n, true) else { rule(fs, s, "every operation ends", &f, false, || format!("always panics on {n} bytes")); continue };
                let mut want = h.clone();
                match root { "s_enc" => { want.extend(&did.after); want.extend(&did.tag) } "s_enc_ext" => want.extend(&did.after), _ => { want.extend(&did.before); want.extend(&did.tag) } }
                let h2 = hs_hash(s, &did.next, "t");
                let got = hash(s, &h2);
                rule(fs, s, "transcript is the hash of old transcript, ciphertext and tag", &f, got.as_ref() == Some(&want), || match &got { None => format!("for {n} bytes the new transcript hash is not one whole hash"), Some(g) => format!("for {n} bytes the hash covers {} bytes instead of {}, first difference at {:?}", g.len(), want.len(), (0..want.len().max(g.len())).find(|i| g.get(*i) != want.get(*i))) });
                fs.count("transcripts compared", 1);
            }
            if n > 3 * KEY && n % 5 != 0 && n <= top { continue }
            for ro in ["u", "s", "t"] {
                let root = format!("{ro}_mix");
                let f = "vru_noise::SymmetricState::mix_hash";
                let st = s.unknown(&root, 0, "hs");
                let x = s.bytes("mixed", n, 0); let xs = s.slice(&x);
                let h = hs_hash(s, &st, ro);
                let Some(v) = s.call(&root, vec![st.clone(), xs]) else { rule(fs, s, "every operation ends", f, false, || format!("always panics on {n} bytes")); continue };
                let h2 = hs_hash(s, &v, ro);
                let got = hash(s, &h2);
                let mut want = h.clone(); want.extend(&x);
                rule(fs, s, "transcript is the hash of old transcript and data", f, got.as_ref() == Some(&want), || format!("after mixing {n} bytes the transcript hash is {}", s.shows(&h2)));
                // keys stay
                let (a, b) = (keys(s, &st, ro), keys(s, &v, ro));
                rule(fs, s, "mixing leaves the keys alone", f, a.is_some() && a == b, || format!("mixing {n} bytes changes the keys"));
                fs.count("transcripts compared", 1);
            }
            if n <= c.l + 10 {
                let x = s.bytes("name", n, 0); let xs = s.slice(&x);
                let f = "vru_noise::SymmetricState::new";
                let Some(v) = s.call("u_new", vec![xs]) else { rule(fs, s, "every operation ends", f, false, || format!("always panics on {n} bytes")); continue };
                let h = hs_hash(s, &v, "u");
                let ck = chain_key(s, &v, "u");
                let good = if n <= c.l { let z = s.it.t.konst(0, 8); let mut w = x.clone(); w.resize(c.l, z); h == w } else { hash(s, &h).as_ref() == Some(&x) };
                rule(fs, s, "the transcript starts with the protocol name", f, good, || format!("for a name of {n} bytes the first transcript hash is {}", s.shows(&h)));
                rule(fs, s, "the first chaining key is the first transcript hash", f, ck.as_ref() == Some(&h), || format!("for a name of {n} bytes the first chaining key is another value"));
                fs.count("transcripts compared", 1);
            }
        }
        s.clean(fs, "transcript");
    })) }
    run_jobs(wire(d), jobs, r);
    let n = r.counted("transcripts compared"); r.floor("transcripts compared", n, 1500);
}
/// cipher keys that finishing a state would give, and the key of the state itself
fn keys(s: &mut Sim, st: &Val, ro: &str) -> Option<(T, T, Option<T>)> {
    let root = format!("{ro}_finish");
    let r = s.call(&root, vec![st.clone()])?;
    let c = s.part(&root, &r, 0);
    let (a, b) = (dir(s, &c, "c_send")?, dir(s, &c, "c_receive")?);
    let (a, b) = (probe(s, &a)?, probe(s, &b)?);
    let k = if ro == "u" { None } else { hs_key(s, st, ro) };
    Some((a.0, b.0, k))
}
/// salt and secret behind the component of a key derivation
fn derivation(t: &Terms, b: T) -> Option<(T, u32, Vec<T>, Vec<T>)> {
    let K::Sel(o, i) = *t.k(b) else { return None };
    let (n, a) = t.app_name(o)?;
    if n != "okm" || a.len() != 1 { return None }
    let (n, v) = t.app_name(a[0])?;
    if !n.starts_with("hkdf:") { return None }
    let l = t.c(*v.first()?)? as usize;
    Some((o, i, v[1..1 + l].to_vec(), v[1 + l..].to_vec()))
}
/// the chaining key of a state, by what finishing derives from
fn chain_key(s: &mut Sim, st: &Val, ro: &str) -> Option<Vec<T>> {
    let k = keys(s, st, ro)?;
    let kb = s.it.t.app_name(k.0)?.1.to_vec();
    derivation(&s.it.t, *kb.first()?).map(|d| d.2)
}
fn key_bytes(s: &Sim, k: T) -> Vec<T> { s.it.t.app_name(k).filter(|n| n.0.starts_with("aead:")).map(|n| n.1.to_vec()).unwrap_or_default() }

pub fn n05(d: &str, r: &mut Report) {
    r.what = "Abstract interpretation of the key schedule over unknown states and secrets of several lengths. Rules: after mixing a secret the chaining key and the cipher key are the first and the second part (for a pre-shared key the first and the third, the second going into the transcript) of one HKDF output whose salt is the whole previous chaining key and whose input is the whole secret; the next encryption uses nonce 0 and the one after it nonce 1; finishing gives the two parts of one HKDF output over the chaining key and nothing else, both at nonce 0, each rotor receiving the chaining key and the key of its own direction; swapping exchanges the directions.".into();
    r.level = "proof".into(); r.trusted = trusted();
    let jobs = each(|s, c, fs| {
        for n in sizes(s) {
            for ro in ["u", "s", "t"] {
                for kind in ["ss", "psk"] {
                    let root = format!("{ro}_{kind}");
                    let f = format!("vru_noise::SymmetricState::{}", if kind == "ss" { "mix_shared_secret" } else { "mix_psk" });
                    let st = s.unknown(&root, 0, "hs");
                    let x = s.bytes("secret", n, 0); let xs = s.slice(&x);
                    let (h, ck) = (hs_hash(s, &st, ro), chain_key(s, &st, ro));
                    let Some(ck) = ck else { rule(fs, s, "the chaining key is known", &f, false, || "finishing does not derive keys from the chaining key".into()); continue };
                    rule(fs, s, "finishing uses the whole chaining key", "vru_noise::SymmetricState::finish", ck.len() == c.l, || format!("{} of {} bytes", ck.len(), c.l));
                    let Some(v) = s.call(&root, vec![st, xs]) else { rule(fs, s, "every operation ends", &f, false, || format!("always panics on {n} bytes")); continue };
                    let h2 = hs_hash(s, &v, "s");
                    let ck2 = chain_key(s, &v, "s");
                    let e0 = hs_seal(s, &v, "s");
                    let (Some(ck2), Some(e0)) = (ck2, e0) else { rule(fs, s, "the successor has keys", &f, false, || "no keys can be observed after mixing".into()); continue };
                    let kb = key_bytes(s, e0.0.aead);
                    let dd = ck2.first().and_then(|b| derivation(&s.it.t, *b));
                    let Some((o, _, salt, ikm)) = dd else { rule(fs, s, "chaining key and cipher key come from one key derivation", &f, false, || format!("the chaining key after mixing is {}", s.shows(&ck2))); continue };
                    rule(fs, s, "salt is the whole previous chaining key", &f, salt == ck, || format!("the salt is {}", s.shows(&salt)));
                    rule(fs, s, "the input is the whole secret", &f, ikm == x, || format!("of {n} bytes {} are used", ikm.len()));
                    let off = if kind == "ss" { c.l } else { 2 * c.l };
                    let part = |s: &mut Sim, from: usize, n: usize| -> Vec<T> { (from..from + n).map(|i| s.it.t.sel(o, i as u32, 8)).collect() };
                    let (w1, w2) = (part(s, 0, c.l), part(s, off, KEY));
                    rule(fs, s, "the chaining key is the first part of the derivation", &f, ck2 == w1, || format!("it is {}", s.shows(&ck2)));
                    rule(fs, s, "the cipher key is a part of its own", &f, kb == w2, || format!("it is {}", s.shows(&kb)));
                    if kind == "ss" { rule(fs, s, "mixing a shared secret leaves the transcript alone", &f, h2 == h, || "the transcript hash changes".into()) }
                    else {
                        let got = hash_of(&s.it.t, &h2).filter(|_| h2.len() == c.l);
                        let good = got.map(|g| { g.len() >= h.len() + KEY && g.len() <= h.len() + c.l && g[..h.len()] == h[..] && { let w = part(s, c.l, g.len() - h.len()); g[h.len()..] == w[..] } }).unwrap_or(false);
                        rule(fs, s, "the second part goes into the transcript", &f, good, || format!("the transcript hash is {}", s.shows(&h2)));
                    }
                    let z = nonce_k(s, c, 0); let one = nonce_k(s, c, 1);
                    rule(fs, s, "mixing restarts the nonce at zero", &f, e0.0.nonce == z, || format!("the next nonce is {}", s.shows(&e0.0.nonce)));
                    let e1 = hs_seal(s, &e0.1, "t");
                    rule(fs, s, "the same key is used with the next nonce", "vru_noise::SymmetricState::encrypt", e1.as_ref().map(|e| e.0.nonce == one && e.0.aead == e0.0.aead).unwrap_or(false), || format!("the second encryption uses {}", e1.as_ref().map(|e| s.shows(&e.0.nonce)).unwrap_or_default()));
                    let ck3 = chain_key(s, &e0.1, "t");
                    rule(fs, s, "encrypting leaves the chaining key alone", "vru_noise::SymmetricState::encrypt", ck3.as_ref() == Some(&ck2), || "the chaining key changes".into());
                    let did = hs_op(s, &v, "s_dec", 5, true);
                    if let Some(did) = did {
                        let g = "vru_noise::SymmetricState::decrypt";
                        let e2 = hs_seal(s, &did.next, "t"); let ck4 = chain_key(s, &did.next, "t");
                        rule(fs, s, "the same key is used with the next nonce", g, e2.as_ref().map(|e| e.0.nonce == one && e.0.aead == e0.0.aead).unwrap_or(false), || "the operation after a decryption uses another key or nonce".into());
                        rule(fs, s, "decrypting leaves the chaining key alone", g, ck4.as_ref() == Some(&ck2), || "the chaining key changes".into());
                    }
                    fs.count("derivations compared", 1);
                }
            }
        }
        for ro in ["u", "s", "t"] {
            let root = format!("{ro}_finish"); let f = "vru_noise::SymmetricState::finish";
            let st = s.unknown(&root, 0, "hs");
            let h = hs_hash(s, &st, ro);
            let ck = chain_key(s, &st, ro);
            // what a further secret would be mixed into
            let ck0 = { let x = s.bytes("secret", 8, 0); let xs = s.slice(&x); s.call(&format!("{ro}_ss"), vec![st.clone(), xs]).and_then(|v| hs_seal(s, &v, "s")).and_then(|e| key_bytes(s, e.0.aead).first().copied()).and_then(|b| derivation(&s.it.t, b)).map(|d| d.2) };
            let Some(r) = s.call(&root, vec![st]) else { rule(fs, s, "every operation ends", f, false, || "always panics".into()); continue };
            let cy = s.part(&root, &r, 0); let hv = s.part(&root, &r, 1);
            let ht = match &s.it.p.tys[s.ret_ty(&root) as usize].kind { TyKind::Tuple(v) => v[1], _ => 0 };
            let h2 = s.flat(&hv, ht);
            rule(fs, s, "finishing returns the transcript hash", f, h2 == h, || "another value is returned".into());
            rule(fs, s, "finishing derives from the chaining key", f, ck.is_some() && ck == ck0, || "the salt is another value".into());
            let (Some(a), Some(b)) = (dir(s, &cy, "c_send"), dir(s, &cy, "c_receive")) else { continue };
            let (Some(pa), Some(pb)) = (probe(s, &a), probe(s, &b)) else { continue };
            let (ka, kb) = (key_bytes(s, pa.0), key_bytes(s, pb.0));
            let dd = ka.first().and_then(|b| derivation(&s.it.t, *b));
            if let Some((o, _, salt, ikm)) = dd {
                let wa: Vec<T> = (0..KEY).map(|i| s.it.t.sel(o, i as u32, 8)).collect(); let wb: Vec<T> = (c.l..c.l + KEY).map(|i| s.it.t.sel(o, i as u32, 8)).collect();
                rule(fs, s, "directional keys are separate parts of one derivation", f, ka == wa && kb == wb, || format!("they are {} and {}", s.shows(&ka[..2]), s.shows(&kb[..2.min(kb.len())])));
                rule(fs, s, "finishing derives from the chaining key", f, Some(&salt) == ck.as_ref() && ikm.is_empty(), || format!("the derivation takes {} more bytes", ikm.len()));
            } else { rule(fs, s, "directional keys are separate parts of one derivation", f, false, || format!("the sending key is {}", s.shows(&ka))) }
            let z = nonce_k(s, c, 0);
            rule(fs, s, "both directions start at nonce zero", f, pa.1 == z && pb.1 == z, || format!("they start at {} and {}", s.shows(&pa.1), s.shows(&pb.1)));
            // the rotors
            for (u, k) in [(&a, &ka), (&b, &kb)] {
                let mut v = u.clone(); let m = s.it.events.len();
                for _ in 0..INTERVAL { match step(s, &v, 'e') { Some(x) => v = x, None => break } }
                let rot = s.it.events[m..].iter().find(|e| e.kind == "rotate").and_then(|e| s.it.t.app_name(e.terms[0]).map(|x| x.1[0]));
                let fl = rot.and_then(|r| s.it.t.app_name(r).map(|x| x.1.to_vec())).unwrap_or_default();
                let mut want = ck.clone().unwrap_or_default(); want.extend(k.iter());
                rule(fs, s, "each rotor gets the chaining key and the key of its direction", f, fl == want, || format!("it gets {}", s.shows(&fl)));
            }
            // swap
            let g = "vru_noise::Cipher::swap";
            if let Some(sw) = s.call("c_swap", vec![cy.clone()]) {
                let ut = s.ret_ty("c_send");
                let (x, y) = (dir(s, &sw, "c_send"), dir(s, &sw, "c_receive"));
                if let (Some(x), Some(y)) = (x, y) { let (x, y, a, b) = (s.flat(&x, ut), s.flat(&y, ut), s.flat(&a, ut), s.flat(&b, ut)); rule(fs, s, "swapping exchanges the directions and nothing else", g, x == b && y == a, || "the directions are not exchanged".into()) }
                fs.count("derivations compared", 1);
            }
            // and on any pair
            let any = s.unknown("c_swap", 0, "pair"); let ut = s.ret_ty("c_send");
            if let (Some(sw), Some(a), Some(b)) = (s.call("c_swap", vec![any.clone()]), dir(s, &any, "c_send"), dir(s, &any, "c_receive")) {
                if let (Some(x), Some(y)) = (dir(s, &sw, "c_send"), dir(s, &sw, "c_receive")) { let (x, y, a, b) = (s.flat(&x, ut), s.flat(&y, ut), s.flat(&a, ut), s.flat(&b, ut)); rule(fs, s, "swapping exchanges the directions and nothing else", g, x == b && y == a, || "the directions are not exchanged".into()) }
            }
        }
        s.clean(fs, "key schedule");
    });
    run_jobs(wire(d), jobs, r);
    let n = r.counted("derivations compared"); r.floor("derivations compared", n, 80);
}
fn hs_seal(s: &mut Sim, st: &Val, ro: &str) -> Option<(Sealed, Val)> {
    let keep = s.st.clone(); let k = s.it.events.len();
    let x = s.bytes("hprobe", 1, 0); let xs = s.slice(&x);
    let root = format!("{ro}_enc");
    let r = s.call(&root, vec![st.clone(), xs]);
    let e = since(s, k, "seal"); s.it.events.truncate(k);
    let n = r.map(|r| s.part(&root, &r, 0));
    s.st = keep;
    Some((e.into_iter().next()?, n?))
}

pub fn n06(d: &str, r: &mut Report, tier: &str) {
    r.what = "Abstract interpretation of the decryption operations on unknown bytes of every length from 0 to 80 (400 in the thorough tier), with both verdicts of the AEAD possible. Rule: every assertion, index, slice and unwrap on every path holds, and the operation returns.".into();
    r.level = "proof".into(); r.trusted = trusted();
    let top = if tier == "thorough" { 400 } else { 80 };
    let jobs = each(move |s, _c, fs| {
        // the counter itself is not at its end (2^64 messages)
        s.it.top = u64::MAX as u128 - 16;
        let far = sizes(s).into_iter().filter(|n| *n > top);
        for n in (0..=top).chain(far.collect::<Vec<_>>()) {
            for root in ["c_dec_ext", "c_dec", "d_dec", "s_dec", "x_dec"] {
                let f = match root { "c_dec_ext" => "vru_noise::Cipher::decrypt_ext", "c_dec" => "vru_noise::Cipher::decrypt", "d_dec" => DEC, _ => "vru_noise::SymmetricState::decrypt" };
                let x = s.bytes("data", n, 0); let ad = s.bytes("about", 3, 0); let tg = s.bytes("tag", TAG, 0);
                let st = s.unknown(root, 0, "state");
                let keep = s.st.clone();
                let args = match root {
                    "c_dec_ext" => { let (p, a, v) = (s.at(root, 0, st), s.slice(&ad), s.vec(&x)); vec![p, a, v] }
                    "c_dec" | "d_dec" => { let (p, a, v, t) = (s.at(root, 0, st), s.slice(&ad), s.slice(&x), s.arr(&tg)); let t = s.at(root, 3, t); vec![p, a, v, t] }
                    _ => { let (v, t) = (s.slice(&x), s.arr(&tg)); vec![st, v, t] }
                };
                let r = s.call(root, args);
                s.st = keep;
                rule(fs, s, "decryption of any length returns", f, r.is_some(), || format!("no path returns for {n} bytes"));
                fs.count("lengths followed", 1);
            }
        }
        s.clean(fs, "decryption");
    });
    run_jobs(wire(d), jobs, r);
    let n = r.counted("lengths followed"); r.floor("lengths followed", n, 800);
}

pub fn n07(d: &str, r: &mut Report) {
    r.what = "Abstract interpretation of the transport cipher with a rotor of interval 3 whose effect is an uninterpreted mark. Sequences of encryptions, accepted and refused decryptions from the fresh state, then one operation from a state with an unknown counter. Rules: the key used for operation i is the i-div-3-th rotated one; encrypting and decrypting give the same sequence; a refused message neither rotates nor counts; the counter goes on; for an unknown counter n the key afterwards is the rotated one under a condition that holds exactly when 3 divides n+1 (condition evaluated on the term at numbers around every power of two).".into();
    r.level = "proof".into(); r.trusted = trusted();
    let jobs = each(|s, c, fs| {
        let Some(cy) = fresh_cipher(s) else { s.clean(fs, "finish"); return };
        for which in ["c_send", "c_receive"] {
            let mut seqs: Vec<(String, Vec<T>)> = vec![];
            for ops in ["eeeeeeeeee", "dddddddddd", "eedxxdexdeede", "xxdxxexxxdxxexxdxxe"] {
                let Some(mut u) = dir(s, &cy, which) else { break };
                let mut ks = vec![]; let mut n = 0usize;
                for (i, op) in ops.chars().enumerate() {
                    let k = s.it.events.len();
                    let Some((key, _)) = probe(s, &u) else { break };
                    let Some(v) = step_n(s, &u, op, SIZES[i % SIZES.len()], SIZES[(5 * i) % SIZES.len()]) else { break };
                    let ev: Vec<(String, T)> = s.it.events[k..].iter().map(|e| (e.kind.clone(), e.terms[0])).collect();
                    let used = ev.iter().find(|e| e.0 == "seal" || e.0 == "open").and_then(|e| sealed(&s.it.t, e.1)).map(|e| e.aead);
                    let f = if op == 'e' { ENC } else { DEC };
                    rule(fs, s, "a message is processed with the key of its position", f, used == Some(key), || format!("message {n} of `{ops}` uses {}", used.map(|u| s.show(u)).unwrap_or_default()));
                    let rot = ev.iter().filter(|e| e.0 == "rotate").count();
                    if op != 'x' { n += 1; ks.push(key) }
                    let want = (op != 'x' && n % INTERVAL == 0) as usize;
                    rule(fs, s, "rotation exactly at multiples of the interval", if op == 'x' { DEC } else { NEXT }, rot == want, || format!("{rot} rotations after {n} successful operations ({})", if op == 'x' { "a refused message" } else { "an accepted message" }));
                    if let Some((kk, nn)) = probe(s, &v) {
                        let w = nonce_k(s, c, n as u64);
                        rule(fs, s, "rotation does not disturb the counter", NEXT, nn == w, || format!("after {n} operations the nonce is {}", s.shows(&nn)));
                        let rotated = s.it.t.app_name(kk).map(|x| x.0 == "rotated" && x.1.get(1) == Some(&key)).unwrap_or(false);
                        rule(fs, s, "the next key is the rotated one", NEXT, if want == 1 { rotated } else { kk == key }, || format!("after {n} operations the key is {}", s.show(kk)));
                    }
                    u = v;
                    fs.count("operations followed", 1);
                }
                seqs.push((ops.into(), ks));
            }
            for w in seqs.windows(2) { let m = w[0].1.len().min(w[1].1.len()); let same = w[0].1[..m] == w[1].1[..m]; rule(fs, s, "both sides use the same keys in step", NEXT, same && m > 3, || format!("`{}` and `{}` use different keys for the same positions", w[0].0, w[1].0)) }
            let Some((u, n)) = any_counter(s, fs, &cy, which) else { continue };
            let Some((k0, _)) = probe(s, &u) else { continue };
            let z = &sizes(s); let cs: Vec<u128> = util::mentioned(s.it.p, "vru_noise").0.into_iter().collect();
            for (op, f, n0) in [('e', ENC), ('d', DEC), ('x', DEC)].into_iter().flat_map(|(o, f)| z.iter().map(move |n| (o, f, *n))) {
                let Some(v) = step_n(s, &u, op, n0, n0) else { continue };
                let Some((k1, _)) = probe(s, &v) else { continue };
                if op == 'x' { rule(fs, s, "a refused message changes nothing", f, k1 == k0, || format!("the key becomes {}", s.show(k1))); continue }
                let (cond, a, b) = match *s.it.t.k(k1) { K::Ite(c, a, b) => (c, a, b), _ => { rule(fs, s, "rotation exactly at multiples of the interval", NEXT, false, || format!("for counter n the next key is {}", s.show(k1))); continue } };
                let is = |s: &Sim, t: T| s.it.t.app_name(t).map(|x| x.0 == "rotated" && x.1.get(1) == Some(&k0)).unwrap_or(false);
                let pos = is(s, a) && b == k0; let neg = is(s, b) && a == k0;
                rule(fs, s, "the next key is the rotated one", NEXT, pos || neg, || format!("for counter n the next key is {}", s.show(k1)));
                let mut bad = None; let mut m = 0;
                let vals = (0..64u32).flat_map(|k| (0..9u64).map(move |d| (1u64 << k).wrapping_add(d).wrapping_sub(4))).chain(0..400).chain(cs.iter().flat_map(|k| (0..9u64).map(move |d| (*k as u64).wrapping_add(d).wrapping_sub(4)))).filter(|v| *v < u64::MAX - 16);
                for v in vals { let mut memo = FxHashMap::default(); match s.it.t.eval_at(cond, n, v as u128, &mut memo) { Some(x) => { m += 1; if (x == 1) != ((v as u128 + 1) % INTERVAL as u128 == 0) ^ neg { bad = Some(v) } } None => { bad = Some(v); break } } }
                fs.ok("rotation exactly at multiples of the interval", m);
                rule(fs, s, "rotation exactly at multiples of the interval", NEXT, bad.is_none() && m > 300, || format!("after operation {} of a direction the rotation is {}", bad.unwrap_or(0), s.show(cond)));
                fs.count("operations followed", 1);
            }
        }
        s.clean(fs, "rotation");
    });
    run_jobs(wire(d), jobs, r);
    let n = r.counted("operations followed"); r.floor("operations followed", n, 300);
}
