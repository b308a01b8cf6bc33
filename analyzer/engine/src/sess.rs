//! Properties of the session layer: the handshake and its keys, evaluated on unknown seeds, keys and messages.
use crate::check::Report;
use crate::curve::whole;
use crate::interp::*;
use crate::kyber::{run_jobs, Findings, Job};
use crate::models::{sealed, Sealed, OPENED};
use crate::noise::wire;
use crate::sim::Sim;
use crate::term::*;
use crate::util;
use fxhash::{FxHashMap, FxHashSet};
use ir::*;

const XX: &str = "vru_session::handshake::xx::";
const KEY: &str = "vru_session::handshake::PublicKey::";
pub fn trusted() -> Vec<String> {
    vec!["rustc MIR of the workspace, core, alloc (indexing and views), generic-array, serde and aead as exported by the driver".into(), "the interpreter's term rules".into(),
         "meaning of digest, hkdf, aead, base64 and Vec as documented; curve25519 as a commutative group with an encoding that determines the point; vru-kyber as checked by K01-K06 (a ciphertext made for a key pair opens to the encapsulated secret, encodings are lossless)".into()]
}
pub fn rule(fs: &mut Findings, rule: &str, anchor: &str, holds: bool, what: impl FnOnce() -> String) { fs.must(rule, holds, || anchor.into(), || format!("{anchor}: {}", what())) }
/// sizes of payloads: 16 bytes each, none, and 1, 33, 7 and 129
const SHAPES: [&str; 3] = ["", "_none", "_odd"];
/// the same job for each size of payloads
fn shapes(f: fn(&mut Sim, &mut Findings)) -> Vec<Job> { SHAPES.iter().map(|x| one(move |s, fs| { s.shape = *x; f(s, fs) })).collect() }
fn one(f: impl FnOnce(&mut Sim, &mut Findings) + Send + 'static) -> Job { Box::new(move |p| { let mut s = Sim::session(p); let mut fs = Findings::default(); f(&mut s, &mut fs); fs }) }

// ---------------------------------------------------------------- calls
/// evaluate an entry point, passing what it takes by reference behind one
pub fn call(s: &mut Sim, root: &str, args: Vec<Val>) -> Option<Val> {
    let f = s.f(root)?;
    let mut v = vec![];
    for (i, a) in args.into_iter().enumerate() {
        let t = s.it.p.fns[f as usize].args[i];
        let to = s.it.pointee(t);
        v.push(match to { Some(to) if !matches!(s.it.p.tys[to as usize].kind, TyKind::Slice(_) | TyKind::Str) => s.at(root, i, a), _ => a });
    }
    s.call(root, v)
}
pub fn unknown(s: &mut Sim, root: &str, i: usize, name: &str) -> Val { s.unknown(root, i, name) }
pub fn arg_flat(s: &mut Sim, root: &str, i: usize, v: &Val) -> Vec<T> { let t = s.arg_ty(root, i); s.flat(v, t) }
pub fn ret_flat(s: &mut Sim, root: &str, v: &Val) -> Vec<T> { let t = s.ret_ty(root); s.flat(v, t) }
/// type of component i of a tuple, and of the payload of a result or option
fn inner(s: &Sim, t: TyId) -> Option<(usize, TyId)> {
    let TyKind::Adt { variants, .. } = &s.it.p.tys[t as usize].kind else { return None };
    variants.iter().enumerate().find(|(_, v)| v.name == "Ok" || v.name == "Some").and_then(|(i, v)| Some((i, v.fields.first()?.1)))
}
/// condition of success and the value then
pub fn outcome(s: &mut Sim, root: &str, v: &Val) -> (T, Val) {
    let t = s.ret_ty(root); let ct = s.it.ct(t);
    let Some((k, _)) = inner(s, t) else { s.it.lose("result expected"); return (Terms::FALSE, Val::Undef) };
    match s.it.expand(v, ct) {
        Val::Enum(x) => { let z = s.it.us(k as u64); let c = s.it.t.eq(x.0, z); let p = match &x.1[k] { Val::Agg(y) if !y.is_empty() => y[0].clone(), _ => Val::Undef }; (c, p) }
        _ => { s.it.lose("result expected"); (Terms::FALSE, Val::Undef) }
    }
}
/// the components of the tuple inside a result, with their types
fn fields(s: &mut Sim, root: &str, v: &Val) -> Vec<(Val, TyId)> {
    let t = s.ret_ty(root); let t = inner(s, t).map(|x| x.1).unwrap_or(t);
    let ct = s.it.ct(t);
    let ts = match &s.it.p.tys[t as usize].kind { TyKind::Tuple(ts) => ts.clone(), _ => vec![t] };
    match s.it.expand(v, ct) { Val::Agg(x) if x.len() == ts.len() => x.iter().cloned().zip(ts).collect(), _ => { s.it.lose("tuple expected"); vec![] } }
}
fn split(s: &mut Sim, root: &str, v: &Val, n: usize) -> Option<Vec<(Val, TyId)>> { let r = fields(s, root, v); if r.len() == n { Some(r) } else { s.it.lose(format!("{root} returns {} values", r.len())); None } }
/// does c imply d?
pub fn implies(s: &Sim, c: T, d: T) -> bool { d == Terms::TRUE || c == Terms::FALSE || s.it.t.decide(d, &[(c, true)]) == Some(true) || s.it.t.decide(c, &[(d, false)]) == Some(false) }
/// the value of terms where c holds: choices that c decides are made
pub fn unders(s: &mut Sim, v: &[T], c: T) -> Vec<T> {
    if c == Terms::TRUE { return v.to_vec() }
    let mut memo: FxHashMap<T, T> = Default::default();
    let mut known: FxHashMap<T, Option<bool>> = Default::default();
    v.iter().map(|t| under(s, *t, c, &mut memo, &mut known)).collect()
}
fn under(s: &mut Sim, t: T, c: T, memo: &mut FxHashMap<T, T>, known: &mut FxHashMap<T, Option<bool>>) -> T {
    if let Some(r) = memo.get(&t) { return *r }
    let r = match s.it.t.k(t).clone() {
        K::Ite(d, a, b) => {
            let k = match known.get(&d) { Some(k) => *k, None => { let k = if implies(s, c, d) { Some(true) } else if s.it.t.decide(d, &[(c, true)]) == Some(false) { Some(false) } else { None }; known.insert(d, k); k } };
            match k { Some(true) => under(s, a, c, memo, known), Some(false) => under(s, b, c, memo, known), None => { let (a, b) = (under(s, a, c, memo, known), under(s, b, c, memo, known)); s.it.t.ite(d, a, b) } }
        }
        K::App(..) => { let (n, x) = { let (n, x) = s.it.t.app_name(t).unwrap(); (n.to_string(), x.to_vec()) }; let y: Vec<T> = x.iter().map(|x| under(s, *x, c, memo, known)).collect(); if x == y { t } else { s.it.t.app(&n, &y) } }
        K::Eq(a, b) => { let (x, y) = (under(s, a, c, memo, known), under(s, b, c, memo, known)); if (x, y) == (a, b) { t } else { s.it.t.eq(x, y) } }
        K::Not(a) => { let x = under(s, a, c, memo, known); s.it.t.not(x) }
        K::And(v) => { let y: Vec<T> = v.iter().map(|x| under(s, *x, c, memo, known)).collect(); if y[..] == v[..] { t } else { s.it.t.and(&y) } }
        K::Sel(a, i) => { let b = under(s, a, c, memo, known); if a == b { t } else { let (lo, hi) = s.it.t.range(t); let w = s.it.t.w(t); s.it.t.sel_r(b, i, w, lo, hi) } }
        _ => t,
    };
    memo.insert(t, r);
    r
}
fn events(s: &Sim, k: usize, kind: &str) -> Vec<Vec<T>> { s.it.events[k..].iter().filter(|e| e.kind == kind).map(|e| e.terms.clone()).collect() }
/// attempts to open since event k: the attempt, what it was given, and its tag
fn opens(s: &Sim, k: usize) -> Vec<(T, Sealed)> { events(s, k, "open").into_iter().filter_map(|e| sealed(&s.it.t, e[0]).map(|x| (e[0], x))).collect() }
fn seals(s: &Sim, k: usize) -> Vec<Sealed> { events(s, k, "seal").into_iter().filter_map(|e| sealed(&s.it.t, e[0])).collect() }

// ---------------------------------------------------------------- an honest handshake
struct Run { pk: [Val; 2], sk: [Val; 2], id: Val, e_seed: [Val; 2], ok: Vec<T>, fin: [Val; 2], hash: [Vec<T>; 2], peer: [Vec<T>; 2], sent: Vec<Vec<T>>, got: Vec<Vec<T>>, events: usize, calls: Vec<usize> }
fn honest(s: &mut Sim) -> Option<Run> {
    let mut pk = vec![]; let mut sk = vec![];
    for n in ["I", "R"] { let a = unknown(s, "gen", 0, n); let r = call(s, "gen", vec![a])?; let r = split(s, "gen", &r, 2)?; pk.push(r[0].0.clone()); sk.push(r[1].0.clone()) }
    let id = call(s, "identity", vec![pk[1].clone()])?;
    let events = s.it.events.len(); let mut calls = vec![events];
    let seed = unknown(s, "out0", 0, "ei");
    let r = call(s, "out0", vec![seed.clone(), id.clone()])?; let r = split(s, "out0", &r, 2)?; let (si, m0) = (r[0].0.clone(), r[1].0.clone());
    calls.push(s.it.events.len());
    let (seed1, p) = (unknown(s, "take0_out1", 0, "er"), unknown(s, "take0_out1", 5, "p"));
    let mut sent = vec![]; let mut got = vec![]; let mut ok = vec![];
    sent.push(arg_flat(s, "take0_out1", 5, &p));
    let er = { let t = s.arg_ty("take0_out1", 0); let ct = s.it.ct(t); match s.it.expand(&seed1, ct) { Val::Agg(x) => x[0].clone(), _ => return None } };
    let r = call(s, "take0_out1", vec![seed1, id.clone(), pk[1].clone(), sk[1].clone(), m0, p])?; let r = split(s, "take0_out1", &r, 2)?; let (sr, m1) = (r[0].0.clone(), r[1].0.clone());
    calls.push(s.it.events.len());
    let (seed2, q, rr) = (unknown(s, "take1_out2", 0, "seed2"), unknown(s, "take1_out2", 5, "q"), unknown(s, "take1_out2", 6, "r"));
    sent.push(arg_flat(s, "take1_out2", 5, &q)); sent.push(arg_flat(s, "take1_out2", 6, &rr));
    let r = call(s, "take1_out2", vec![seed2, si, pk[0].clone(), sk[0].clone(), m1, q, rr])?;
    calls.push(s.it.events.len());
    let (c, r) = outcome(s, "take1_out2", &r); ok.push(c); let r = split(s, "take1_out2", &r, 4)?;
    let fin = r[0].0.clone(); let peer_r = { let v = s.flat(&r[1].0, r[1].1); unders(s, &v, c) }; let v = s.flat(&r[2].0, r[2].1); got.push(unders(s, &v, c)); let m2 = r[3].0.clone();
    let (seed3, ps) = (unknown(s, "take2_out3", 0, "seed3"), unknown(s, "take2_out3", 5, "s"));
    sent.push(arg_flat(s, "take2_out3", 5, &ps));
    let r = call(s, "take2_out3", vec![seed3, sr, pk[1].clone(), sk[1].clone(), m2, ps])?;
    calls.push(s.it.events.len());
    let (c, r) = outcome(s, "take2_out3", &r); ok.push(c); let r = split(s, "take2_out3", &r, 6)?;
    let (cr, hr, peer_i, m3) = (r[0].0.clone(), { let v = s.flat(&r[1].0, r[1].1); unders(s, &v, c) }, { let v = s.flat(&r[2].0, r[2].1); unders(s, &v, c) }, r[5].0.clone());
    for k in [3, 4] { let v = s.flat(&r[k].0, r[k].1); got.push(unders(s, &v, c)) }
    let r = call(s, "take_3", vec![fin, pk[0].clone(), sk[0].clone(), m3])?;
    calls.push(s.it.events.len());
    let (c, r) = outcome(s, "take_3", &r); ok.push(c); let r = split(s, "take_3", &r, 3)?;
    let (ci, hi) = (r[0].0.clone(), { let v = s.flat(&r[1].0, r[1].1); unders(s, &v, c) }); let v = s.flat(&r[2].0, r[2].1); got.push(unders(s, &v, c));
    Some(Run { pk: [pk[0].clone(), pk[1].clone()], sk: [sk[0].clone(), sk[1].clone()], id, e_seed: [seed, er], ok, fin: [ci, cr], hash: [hi, hr], peer: [peer_i, peer_r], sent, got, events, calls })
}
const STEPS: [&str; 5] = ["out0", "take0_out1", "take1_out2", "take2_out3", "take_3"];

pub fn s01(d: &str, r: &mut Report) {
    r.what = "Abstract interpretation of a whole handshake, from the generation of both static keys to the finished ciphers, over unknown seeds and payloads; the four messages are handed over unmodified. Rules: every step succeeds unconditionally, both transcript hashes are the same value, what one side seals with its finished cipher the other opens at the same position, payloads arrive as they were given, and each side holds the other's static public key.".into();
    r.level = "proof".into(); r.trusted = trusted();
    run_jobs(wire(d), shapes(|s, fs| {
        let Some(h) = honest(s) else { rule(fs, "every honest step succeeds", XX, false, || "a step of an honest handshake never returns".into()); s.clean(fs, "handshake"); return };
        for (c, n) in h.ok.iter().zip(["take1_out2", "take2_out3", "take_3"]) { let t = s.show(*c); rule(fs, "every honest step succeeds", &format!("{XX}{n}"), *c == Terms::TRUE, || format!("on unmodified messages the step succeeds only if {t}")) }
        rule(fs, "both sides have the same transcript hash", &format!("{XX}take2_out3"), h.hash[0] == h.hash[1] && h.hash[0].len() == 32, || format!("the transcript hashes are {} and {}", s.shows(&h.hash[0][..1]), s.shows(&h.hash[1][..1])));
        for (i, n) in ["p of the responder", "q of the initiator", "r of the initiator", "s of the responder"].into_iter().enumerate() {
            rule(fs, "payloads arrive as given", &format!("{XX}{}", ["take1_out2", "take2_out3", "take2_out3", "take_3"][i]), h.sent[i] == h.got[i] && (s.shape == "_none") == h.sent[i].is_empty(), || format!("payload {n} arrives as {}", s.shows(&h.got[i][..2.min(h.got[i].len())])));
        }
        for (i, n) in ["take2_out3", "take1_out2"].into_iter().enumerate() {
            let want = { let v = h.pk[i].clone(); arg_flat(s, "identity", 0, &v) };
            rule(fs, "each side holds the other's static key", &format!("{XX}{n}"), h.peer[i] == want, || format!("the key obtained is {}", s.shows(&h.peer[i][..1])));
        }
        for (from, to) in [(0, 1), (1, 0)] {
            let (a, b) = (call(s, "c_send", vec![h.fin[from].clone()]), call(s, "c_receive", vec![h.fin[to].clone()]));
            let (Some(a), Some(b)) = (a, b) else { continue };
            let (ua, ub) = (s.at("d_enc", 0, a), s.at("d_dec", 0, b));
            for i in 0..4 {
                let (m, ad) = (s.bytes(&format!("m{from}{i}"), 20 * i, 0), s.bytes(&format!("ad{from}{i}"), 5 * i, 0));
                let (mv, adv, adv2) = (s.slice(&m), s.slice(&ad), s.slice(&ad));
                let Some(tag) = s.call("d_enc", vec![ua.clone(), adv, mv.clone()]) else { continue };
                let ct = s.text(&mv); let cv = s.slice(&ct); let tp = s.at("d_dec", 3, tag);
                let r = s.call("d_dec", vec![ub.clone(), adv2, cv.clone(), tp]);
                let ok = match &r { Some(v) => s.it.as_t(v), None => Terms::FALSE };
                let pt = s.text(&cv);
                rule(fs, "what one side seals the other opens", &format!("{XX}{}", ["take_3", "take2_out3"][from]), ok == Terms::TRUE && pt == m, || format!("message {i} from side {from} is opened as {} under the condition {}", s.shows(&pt[..1.min(pt.len())]), s.show(ok)));
            }
        }
        s.clean(fs, "handshake");
    }), r);
    for (n, k) in [("every honest step succeeds", 9), ("payloads arrive as given", 12), ("what one side seals the other opens", 24)] { floor(r, n, k) }
}

// ---------------------------------------------------------------- what a value is bound to
/// everything a value determines or is determined by through hashing, key derivation and encryption
fn bound(s: &Sim, from: &[T]) -> FxHashSet<T> {
    let mut seen: FxHashSet<T> = Default::default(); let mut st: Vec<T> = from.to_vec();
    while let Some(t) = st.pop() {
        if !seen.insert(t) { continue }
        if let Some((n, _)) = s.it.t.app_name(t) { if !(n.starts_with("hash:") || n.starts_with("hkdf:") || n.starts_with("aead:") || n.starts_with("kyber:line:") || ["okm", "prk", "enc", "tag", "dec", "kyber:dec", "kyber:ss", "kyber:ct", "point"].contains(&n)) { continue } }
        st.extend(s.it.t.children(t));
    }
    seen
}
fn binds(s: &mut Sim, b: &FxHashSet<T>, x: T) -> bool {
    if b.contains(&x) { return true }
    if s.it.t.c(x).is_some() { return true }
    let e = match s.it.t.app_name(x) { Some(("kyber:ct", a)) => Some(a[0]), _ => None };
    if let Some(e) = e { let ss = s.it.t.app("kyber:ss", &[e]); return b.contains(&ss) }
    match s.it.t.k(x).clone() { K::Ite(c, p, q) => { let _ = c; binds(s, b, p) && binds(s, b, q) } _ => false }
}
/// one step that verifies a received message: rules of S02. `before`: every byte sent or received so far
fn verify(s: &mut Sim, fs: &mut Findings, root: &str, k: usize, ok: T, msg: &[T], before: &[(String, Vec<T>)], out: &[(Val, TyId)], returned: &[(usize, bool)]) {
    let anchor = format!("{XX}{root}");
    let os = opens(s, k);
    rule(fs, "every encrypted field is verified", &anchor, !os.is_empty() && ok != Terms::FALSE, || "no part of the message is verified".into());
    let mut covered = vec![false; msg.len()];
    let mut plain: Vec<(T, usize)> = vec![];
    for (x, o) in &os {
        let c = s.it.t.sel(*x, OPENED, 1);
        rule(fs, "success requires every verification", &anchor, implies(s, ok, c), || format!("the step can succeed although {} was refused", s.show(*x)));
        // text and tag are consecutive bytes of the message
        let first = o.text.first().and_then(|t| msg.iter().position(|m| m == t));
        let Some(at) = first else { rule(fs, "the received bytes are verified", &anchor, false, || format!("what is verified is not part of the message: {}", s.shows(&o.text[..1.min(o.text.len())]))); continue };
        let exact = at + o.text.len() <= msg.len() && msg[at..at + o.text.len()] == o.text[..];
        rule(fs, "the received bytes are verified", &anchor, exact, || format!("what is verified is not a run of received bytes: {}", s.shows(&o.text[..2.min(o.text.len())])));
        for i in at..(at + o.text.len()).min(msg.len()) { covered[i] = true }
        plain.push((*x, o.text.len() - 16));
        let mut src = o.ad.clone(); src.push(o.aead);
        let b = bound(s, &src);
        for (what, v) in before {
            let miss: Vec<usize> = (0..v.len()).filter(|i| !binds(s, &b, v[*i])).collect();
            rule(fs, "bound to everything sent and received before", &anchor, miss.is_empty(), || format!("the verification of the field at byte {at} does not depend on {} of the {} components of {what} (first: number {})", miss.len(), v.len(), miss[0]));
        }
        let miss: Vec<usize> = (0..at).filter(|i| !binds(s, &b, msg[*i])).collect();
        rule(fs, "bound to the earlier fields of the message", &anchor, miss.is_empty(), || format!("the verification of the field at position {at} does not depend on {} of the {at} received components before it (first: number {})", miss.len(), miss[0]));
    }
    let tail = msg.len() - covered.iter().rposition(|c| *c).map(|i| i + 1).unwrap_or(0);
    rule(fs, "nothing follows the last verified field", &anchor, tail == 0, || format!("{tail} received components come after the last verified field"));
    for (i, key) in returned {
        let Some((v, t)) = out.get(*i) else { rule(fs, "returned values are verified plaintexts", &anchor, false, || format!("component {i} of the result is gone")); continue };
        let v = { let v = s.flat(v, *t); unders(s, &v, ok) };
        let holds = plain.clone().iter().any(|(x, n)| {
            let pt: Vec<T> = (0..*n as u32).map(|i| s.it.t.sel(*x, i, 8)).collect(); let pt = unders(s, &pt, ok);
            if !*key { return pt == v }
            let n = arg_flat_len(s, "try_decompress", 0);
            if pt.len() != n { return false }
            let parts = concat_arg(s, "try_decompress", 0, &pt);
            let keep = s.it.alarms.len();
            let r = call(s, "try_decompress", vec![parts]); s.it.alarms.truncate(keep);
            match r { Some(r) => { let (c, kv) = outcome(s, "try_decompress", &r); let f = { let t = s.arg_ty("identity", 0); s.flat(&kv, t) }; let f = unders(s, &f, c); let f = unders(s, &f, ok); f == v && entails(s, ok, c) } None => false }
        });
        rule(fs, "returned values are verified plaintexts", &anchor, holds, || format!("component {i} of the result is {}", s.shows(&v[..1.min(v.len())])));
    }
}
/// the conditions that make up a conjunction
fn raw_conds(s: &Sim, c: T) -> Vec<T> { match s.it.t.k(c) { K::And(v) => v.to_vec(), _ => vec![c] } }
/// does success imply d, which may be written in terms of values as they are on success?
pub fn entails(s: &mut Sim, ok: T, d: T) -> bool {
    if implies(s, ok, d) { return true }
    let all = raw_conds(s, ok); let mut all = unders(s, &all, ok); let d = unders(s, &[d], ok)[0];
    let mut i = 0; while i < all.len() { let c = all[i]; if let K::And(v) = s.it.t.k(c) { let v = v.to_vec(); all.extend(v) } i += 1 }
    all.iter().any(|c| implies(s, *c, d))
}
fn arg_flat_len(s: &mut Sim, root: &str, i: usize) -> usize { let v = unknown(s, root, i, "len"); arg_flat(s, root, i, &v).len() }
/// an argument of nested arrays filled from a list of bytes
fn concat_arg(s: &mut Sim, root: &str, i: usize, b: &[T]) -> Val { let t = s.arg_ty(root, i); let ct = s.it.ct(t); let mut k = 0; fill(s, ct, b, &mut k) }
fn fill(s: &mut Sim, ct: Ct, b: &[T], k: &mut usize) -> Val {
    match s.it.c(ct).clone() {
        C::Zst => Val::Undef,
        C::Arr(e, n) => Val::Agg(std::rc::Rc::new((0..n).map(|_| fill(s, e, b, k)).collect())),
        C::St(f) => Val::Agg(std::rc::Rc::new(f.iter().map(|f| fill(s, *f, b, k)).collect())),
        _ => { *k += 1; Val::T(b[*k - 1]) }
    }
}
/// unknown key pairs
fn pair(s: &mut Sim, n: &str) -> (Val, Val) { (unknown(s, "dh", 0, &format!("pk{n}")), unknown(s, "dh", 1, &format!("sk{n}"))) }
struct Init { id: Vec<T>, first: Vec<T>, msg: Vec<T>, ok: T, out: Vec<(Val, TyId)>, ev: usize }
/// an initiator that dialled an unknown identity and receives unknown bytes
fn initiator(s: &mut Sim) -> Option<Init> {
    let id = unknown(s, "out0", 1, "id"); let idb = arg_flat(s, "out0", 1, &id);
    let seed = unknown(s, "out0", 0, "ei");
    let r = call(s, "out0", vec![seed, id])?; let r = split(s, "out0", &r, 2)?;
    let first = s.flat(&r[1].0, r[1].1);
    let (pk, sk) = pair(s, "I");
    let m = unknown(s, "take1_out2", 4, "m1"); let msg = arg_flat(s, "take1_out2", 4, &m);
    let (seed, q, p) = (unknown(s, "take1_out2", 0, "seed"), unknown(s, "take1_out2", 5, "q"), unknown(s, "take1_out2", 6, "r"));
    let ev = s.it.events.len();
    let v = call(s, "take1_out2", vec![seed, r[0].0.clone(), pk, sk, m, q, p])?;
    let (ok, v) = outcome(s, "take1_out2", &v);
    let out = split(s, "take1_out2", &v, 4)?;
    Some(Init { id: idb, first, msg, ok, out, ev })
}

pub fn s02(d: &str, r: &mut Report) {
    r.what = "Abstract interpretation of each step that consumes a message, on a message of unknown bytes, continuing from the steps before it on unknown bytes too. Every use of the AEAD to open something is recorded with its key, associated data, text and tag, all as value numbers. Rules: the condition of success implies that every one of them was accepted; text and tag are runs of received bytes and nothing follows the last one; key and associated data depend, through hashing, key derivation and encapsulation only, on every byte sent and received before; payloads and the static key returned are the plaintexts.".into();
    r.level = "proof".into(); r.trusted = trusted();
    let mut jobs = shapes(|s, fs| {
            let Some(i) = initiator(s) else { s.clean(fs, "initiator"); return };
            let before = vec![("the dialled identity".to_string(), i.id.clone()), ("the first message".to_string(), i.first.clone())];
            verify(s, fs, "take1_out2", i.ev, i.ok, &i.msg, &before, &i.out, &[(1, true), (2, false)]);
            // the last message
            let sent = s.flat(&i.out[3].0.clone(), i.out[3].1);
            let mut before = before; before.push(("the second message".into(), i.msg.clone())); before.push(("the third message".into(), sent));
            let m = unknown(s, "take_3", 3, "m3"); let msg = arg_flat(s, "take_3", 3, &m);
            let (pk, sk) = pair(s, "I");
            let k = s.it.events.len();
            let Some(v) = call(s, "take_3", vec![i.out[0].0.clone(), pk, sk, m]) else { s.clean(fs, "initiator"); return };
            let (ok, v) = outcome(s, "take_3", &v); let Some(out) = split(s, "take_3", &v, 3) else { s.clean(fs, "initiator"); return };
            verify(s, fs, "take_3", k, ok, &msg, &before, &out, &[(2, false)]);
            s.follows(fs, "initiator");
        });
        jobs.extend(shapes(|s, fs| {
            let (pk, sk) = pair(s, "R");
            let id = unknown(s, "take0_out1", 1, "id"); let idb = arg_flat(s, "take0_out1", 1, &id);
            let m = unknown(s, "take0_out1", 4, "m0"); let m0 = arg_flat(s, "take0_out1", 4, &m);
            let (seed, p) = (unknown(s, "take0_out1", 0, "er"), unknown(s, "take0_out1", 5, "p"));
            let k = s.it.events.len();
            let Some(v) = call(s, "take0_out1", vec![seed, id, pk.clone(), sk.clone(), m, p]) else { s.clean(fs, "responder"); return };
            let Some(v) = split(s, "take0_out1", &v, 2) else { s.clean(fs, "responder"); return };
            let sl = seals(s, k);
            rule(fs, "the answer depends on the whole opening message", &format!("{XX}take0_out1"), !sl.is_empty(), || "nothing is sealed".into());
            for (i, o) in sl.iter().enumerate() {
                let mut src = o.ad.clone(); src.push(o.aead); let b = bound(s, &src);
                for (w, x) in [("opening message", &m0), ("own identity", &idb)] {
                    let miss = x.iter().filter(|t| !binds(s, &b, **t)).count();
                    rule(fs, "the answer depends on the whole opening message", &format!("{XX}take0_out1"), miss == 0, || format!("encryption {i} does not depend on {miss} of the {} bytes of the {w}", x.len()));
                }
            }
            let m1 = s.flat(&v[1].0, v[1].1);
            let before = vec![("its own identity".to_string(), idb), ("the first message".to_string(), m0), ("the second message".to_string(), m1)];
            let m = unknown(s, "take2_out3", 4, "m2"); let msg = arg_flat(s, "take2_out3", 4, &m);
            let (seed, ps) = (unknown(s, "take2_out3", 0, "seed3"), unknown(s, "take2_out3", 5, "s"));
            let k = s.it.events.len();
            let Some(w) = call(s, "take2_out3", vec![seed, v[0].0.clone(), pk, sk, m, ps]) else { s.clean(fs, "responder"); return };
            let (ok, w) = outcome(s, "take2_out3", &w); let Some(out) = split(s, "take2_out3", &w, 6) else { s.clean(fs, "responder"); return };
            verify(s, fs, "take2_out3", k, ok, &msg, &before, &out, &[(2, true), (3, false), (4, false)]);
            s.follows(fs, "responder");
        }));
    run_jobs(wire(d), jobs, r);
    for (n, k) in [("success requires every verification", 18), ("returned values are verified plaintexts", 18), ("bound to everything sent and received before", 36)] { floor(r, n, k) }
}

// ---------------------------------------------------------------- keys
/// what a key is derived from through key derivation alone
fn derived(s: &Sim, key: T) -> FxHashSet<T> {
    let mut seen: FxHashSet<T> = Default::default(); let mut st = vec![key];
    while let Some(t) = st.pop() {
        if !seen.insert(t) { continue }
        let go = match s.it.t.k(t) { K::Sel(..) | K::Cat(..) => true, K::App(..) => { let n = s.it.t.app_name(t).unwrap().0; n.starts_with("hkdf:") || n.starts_with("aead:") || n == "okm" || n == "prk" } _ => false };
        if go { st.extend(s.it.t.children(t)) }
    }
    seen
}
pub fn s03(d: &str, r: &mut Report) {
    r.what = "Abstract interpretation of a whole honest handshake; from the key of every encryption, and from the keys of both finished ciphers, the key derivations are followed back over value numbers (never through a condition). Rule: all 32 bytes of each secret established before are among their inputs: for the finished ciphers the three Diffie-Hellman results and the four encapsulated secrets, to both ephemeral and both static keys.".into();
    r.level = "proof".into(); r.trusted = trusted();
    run_jobs(wire(d), shapes(|s, fs| {
        let Some(h) = honest(s) else { rule(fs, "every honest step succeeds", XX, false, || "a step of an honest handshake never returns".into()); s.clean(fs, "handshake"); return };
        let end = s.it.events.len();
        let mut e = vec![];
        for i in 0..2 { let Some(r) = call(s, "gen", vec![h.e_seed[i].clone()]) else { return }; let Some(r) = split(s, "gen", &r, 2) else { return }; e.push((r[0].0.clone(), r[1].0.clone())) }
        // the seven secrets
        let mut secrets: Vec<(String, Vec<T>)> = vec![];
        for (n, pk, sk) in [("the ephemeral-ephemeral secret", e[0].0.clone(), e[1].1.clone()), ("the secret of the initiator's ephemeral and the responder's static key", e[0].0.clone(), h.sk[1].clone()), ("the secret of the initiator's static and the responder's ephemeral key", e[1].0.clone(), h.sk[0].clone())] {
            let Some(v) = call(s, "dh", vec![pk, sk]) else { return }; let v = ret_flat(s, "dh", &v);
            rule(fs, "a shared secret is the encoding of a group element", "vru_session::handshake::PublicKey::dh", whole(&s.it, &v, crate::curve::POINT).is_some(), || format!("{n} is {}", s.shows(&v[..1])));
            secrets.push((n.into(), v));
        }
        let enc: Vec<Vec<T>> = s.it.events[h.events..end].iter().filter(|e| e.kind == "encapsulate").map(|e| e.terms.clone()).collect();
        for (n, pk) in [("the initiator's ephemeral key", &e[0].0), ("the responder's ephemeral key", &e[1].0), ("the responder's static key", &h.pk[1]), ("the initiator's static key", &h.pk[0])] {
            let Some(l) = call(s, "lattice", vec![pk.clone()]) else { return }; let l = ret_flat(s, "lattice", &l);
            let x = whole(&s.it, &l, "kyber:line:PublicKey").map(|w| s.it.t.app_name(w).unwrap().1[0]);
            let hits: Vec<Vec<T>> = enc.iter().filter(|e| Some(e[0]) == x).cloned().collect();
            rule(fs, "a secret is encapsulated to every key", XX, !hits.is_empty(), || format!("nothing is encapsulated to {n}"));
            if let Some(a) = hits.first() { let ev = s.it.t.app("kyber:e", a); let ss = s.it.t.app("kyber:ss", &[ev]); let v = (0..32).map(|i| s.it.t.sel(ss, i, 8)).collect(); secrets.push((format!("the secret encapsulated to {n}"), v)) } else { secrets.push((n.into(), vec![])) }
        }
        for i in 0..secrets.len() { for j in 0..i { rule(fs, "the secrets are different values", XX, secrets[i].1 != secrets[j].1, || format!("{} is {}", secrets[i].0, secrets[j].0)) } }
        let missing = |s: &Sim, key: T, want: &[usize]| -> Vec<String> { let d = derived(s, key); want.iter().filter(|w| secrets[**w].1.len() != 32 || secrets[**w].1.iter().any(|b| !d.contains(b))).map(|w| secrets[*w].0.clone()).collect() };
        // <- ec, (p), e, ee, s, es   -> ec, (q), sc, s, se, (r)   <- sc, (s)
        let upto: [(usize, Vec<usize>); 6] = [(1, vec![3]), (1, vec![3, 0]), (2, vec![3, 0, 1, 4]), (2, vec![3, 0, 1, 4, 5]), (2, vec![3, 0, 1, 4, 5, 2]), (3, vec![3, 0, 1, 4, 5, 2, 6])];
        let mut n = 0;
        for c in 1..4 {
            let sl: Vec<Sealed> = s.it.events[h.calls[c]..h.calls[c + 1]].iter().filter(|e| e.kind == "seal").filter_map(|e| sealed(&s.it.t, e.terms[0])).collect();
            for o in sl {
                let Some((step, want)) = upto.get(n) else { break }; n += 1;
                let anchor = format!("{XX}{}", STEPS[c]);
                rule(fs, "an encryption uses every secret established before", &anchor, *step == c, || format!("encryption number {n} belongs to another step"));
                let m = missing(s, o.aead, want);
                rule(fs, "an encryption uses every secret established before", &anchor, m.is_empty(), || format!("the key of encryption number {n} of the handshake does not depend on all of {}", m.join(", ")));
            }
        }
        rule(fs, "an encryption uses every secret established before", XX, n == 6, || format!("{n} fields are encrypted instead of 6"));
        for (side, who) in [(0, "take_3"), (1, "take2_out3")] {
            for dir in ["c_send", "c_receive"] {
                let Some(u) = call(s, dir, vec![h.fin[side].clone()]) else { continue };
                let up = s.at("d_enc", 0, u); let (ad, m) = (s.slice(&[]), s.bytes("x", 1, 0)); let m = s.slice(&m);
                let k = s.it.events.len();
                s.call("d_enc", vec![up, ad, m]);
                for o in seals(s, k) {
                    let m = missing(s, o.aead, &[0, 1, 2, 3, 4, 5, 6]);
                    rule(fs, "the session keys use all seven secrets", &format!("{XX}{who}"), m.is_empty(), || format!("{dir} of the finished cipher does not depend on all of {}", m.join(", ")));
                }
            }
        }
        s.clean(fs, "handshake");
    }), r);
    for (n, k) in [("an encryption uses every secret established before", 39), ("the session keys use all seven secrets", 12), ("a secret is encapsulated to every key", 12), ("a shared secret is the encoding of a group element", 9)] { floor(r, n, k) }
}

pub fn s04(d: &str, r: &mut Report) {
    r.what = "Abstract interpretation of the initiator from dialling an unknown identity to its answer to unknown received bytes. The identity of the static key it returns is computed by the code's own identity function; rule: the condition of success implies the equality of every byte of it with the dialled one.".into();
    r.level = "proof".into(); r.trusted = trusted();
    run_jobs(wire(d), shapes(|s, fs| {
        let anchor = format!("{XX}take1_out2");
        let Some(i) = initiator(s) else { s.clean(fs, "initiator"); return };
        let k = s.it.alarms.len();
        let key = i.out[1].0.clone();
        // the value of the key where the step succeeds
        let kt = i.out[1].1; let kv = s.flat(&key, kt); let kv = unders(s, &kv, i.ok); let ct = s.it.ct(kt); let mut z = 0; let key = fill(s, ct, &kv, &mut z);
        let Some(id) = call(s, "identity", vec![key]) else { s.clean(fs, "initiator"); return };
        let id = ret_flat(s, "identity", &id);
        s.it.alarms.truncate(k);
        rule(fs, "success requires the dialled identity", &anchor, id.len() == 32 && i.id.len() == 32 && i.ok != Terms::FALSE, || "identity of unexpected form".into());
        for (n, (a, b)) in id.iter().zip(i.id.iter()).enumerate() {
            let e = s.it.t.eq(*a, *b);
            rule(fs, "success requires the dialled identity", &anchor, entails(s, i.ok, e), || format!("the step can succeed although byte {n} of the identity of the presented key differs from the one asked for"));
        }
        s.follows(fs, "initiator");
    }), r);
    floor(r, "success requires the dialled identity", 99);
}

pub fn s05(d: &str, r: &mut Report) {
    r.what = "Abstract interpretation of every function that takes bytes from a peer, on unknown bytes: the four receiving steps of the handshake in unknown states, decompression and deserialization of public keys (input of several lengths around the right one), parsing of an identity (text of every length up to 60 decoding to every length up to 45). Every panic, unwrap, range check and overflow check must be unreachable.".into();
    r.level = "proof".into(); r.trusted = trusted();
    let mut jobs: Vec<Job> = vec![];
    for root in ["take0_out1", "take1_out2", "take2_out3", "take_3", "try_decompress", "identity", "compress", "dh"] { for shape in SHAPES {
        if !root.starts_with("take") && !shape.is_empty() { continue }
        jobs.push(one(move |s, fs| {
            s.shape = shape;
            let n = s.f(root).map(|f| s.it.p.fns[f as usize].args.len()).unwrap_or(0);
            let a = (0..n).map(|i| unknown(s, root, i, &format!("a{i}"))).collect();
            call(s, root, a);
            fs.ok("received bytes of any content are handled", 1);
            nopanic(s, fs, root);
        }))
    } }
    jobs.push(one(|s, fs| {
        let n = arg_flat_len(s, "try_decompress", 0) + 32;
        for n in [0, 1, 31, 32, 33, 34, 63, 64, 65, 255, 256, 257, n - 33, n - 32, n - 1, n, n + 1, n + 31, n + 32, n + 33, n + 40, n + 256, 2 * n, 2 * n + 1] {
            let b = s.bytes(&format!("b{n}"), n, 0); let v = s.slice(&b);
            s.call("deserialize", vec![v]);
            fs.ok("received bytes of any content are handled", 1);
        }
        nopanic(s, fs, "deserialize");
    }));
    for part in 0..4usize {
        jobs.push(one(move |s, fs| {
            for l in (0..=60usize).chain([64, 88, 120, 256, 257, 388, 1001, 1026]) { if l % 4 != part { continue }
                for n in (0..=45usize).chain([64, 65, 66, 255, 256, 257, 288, 289, 290]) {
                    if n > l { continue }
                    s.it.decoded = n;
                    let b = s.bytes(&format!("t{l}.{n}."), l, 0); let v = s.slice(&b);
                    s.call("parse", vec![v]);
                    fs.ok("received bytes of any content are handled", 1);
                }
            }
            nopanic(s, fs, "parse");
        }))
    }
    run_jobs(wire(d), jobs, r);
    floor(r, "received bytes of any content are handled", 1000);
}

/// the outcome that leads to an alarm, if it is one of a primitive on one field of the input
fn reason(s: &Sim, a: &Alarm) -> Option<String> {
    let (c, v) = a.pc.last()?;
    let (mut c, mut v) = (*c, *v);
    while let K::Not(d) = s.it.t.k(c) { c = *d; v = !v }
    let K::Sel(x, _) = s.it.t.k(c) else { return None };
    let (n, b) = s.it.t.app_name(*x)?;
    if n == "secp:finite" { return Some(format!("{n} is {v}")) }
    let f = match s.it.t.k(*b.first()?) { K::Atom(_) => s.it.t.show(b[0]), _ => return None };
    Some(format!("{n}({f}..) is {v}"))
}
/// no panic is reachable from an entry point
pub fn nopanic(s: &mut Sim, fs: &mut Findings, root: &str) {
    s.follows(fs, root);
    let p = s.it.p;
    fs.ok("no overflow, no out-of-range access, no panic", s.it.ok_asserts.values().sum::<u64>() + 1);
    for a in s.it.alarms.clone() {
        let (w, g) = (&p.fns[a.ws as usize].path, &p.fns[a.func as usize].path);
        let why = reason(s, &a);
        let key = match &why { Some(y) => format!("panic:{root}:{y}"), None => format!("{}:{w}:{root}", a.kind) };
        fs.viol("no overflow, no out-of-range access, no panic", key, format!("{} can fail in {g}, reached from {w} at {} when `{root}` is given received bytes: {}", a.kind, util::line(p, a.span), a.text));
    }
}
// ---------------------------------------------------------------- public keys
/// a public key is consistent where c holds
fn consistent(s: &mut Sim, fs: &mut Findings, how: &str, pk: &Val, c: T) {
    let anchor = format!("{KEY}{how}");
    let flat = { let v = arg_flat(s, "identity", 0, pk); unders(s, &v, c) };
    let kt = s.arg_ty("identity", 0); let ct = s.it.ct(kt); let mut z = 0; let pk = fill(s, ct, &flat, &mut z);
    let Some(h) = call(s, "lattice_hash", vec![pk.clone()]) else { return }; let h = ret_flat(s, "lattice_hash", &h);
    let Some(l) = call(s, "lattice", vec![pk.clone()]) else { return }; let l = ret_flat(s, "lattice", &l);
    let want = s.it.t.app("hash:Sha3_256", &l);
    let good = h.len() == 32 && (0..32).all(|i| { let w = s.it.t.sel(want, i as u32, 8); h[i] == w || { let e = s.it.t.eq(h[i], w); c != Terms::TRUE && entails(s, c, e) } });
    rule(fs, "the cached hash is the hash of the lattice key", &anchor, good, || format!("the cached hash is {}", s.shows(&h[..1.min(h.len())])));
    let Some(b) = call(s, "compress", vec![pk.clone()]) else { return };
    let bf = ret_flat(s, "compress", &b);
    if let Some(r) = call(s, "try_decompress", vec![b]) {
        let (ok, k) = outcome(s, "try_decompress", &r); let k = arg_flat(s, "identity", 0, &k); let k = unders(s, &k, ok);
        rule(fs, "the compressed form gives the key back", &anchor, ok == Terms::TRUE && k == flat, || format!("decompressing the compressed form succeeds under {} and gives {}", s.show(ok), s.shows(&k[..1])));
    }
    if let Some(r) = call(s, "serialize", vec![pk.clone()]) {
        let (ok, v) = outcome(s, "serialize", &r); let b = s.text(&v);
        rule(fs, "the serialized form gives the key back", &anchor, ok == Terms::TRUE, || "serializing can fail".into());
        let bv = s.slice(&b);
        if let Some(r) = s.call("deserialize", vec![bv]) {
            let (ok, k) = outcome(s, "deserialize", &r); let k = arg_flat(s, "identity", 0, &k); let k = unders(s, &k, ok);
            rule(fs, "the serialized form gives the key back", &anchor, ok == Terms::TRUE && k == flat, || format!("deserializing the serialized form succeeds under {} and gives {}", s.show(ok), s.shows(&k[..1.min(k.len())])));
        }
    }
    if let Some(k) = call(s, "dup", vec![pk.clone()]) { let k = arg_flat(s, "identity", 0, &k); rule(fs, "a clone is the same key", &anchor, k == flat, || format!("the clone is {}", s.shows(&k[..1]))) }
    if let Some(i) = call(s, "identity", vec![pk.clone()]) {
        let i = ret_flat(s, "identity", &i);
        let want = s.it.t.app("hash:Sha3_256", &bf);
        rule(fs, "the identity is the hash of the compressed form", &anchor, i.len() == 32 && whole(&s.it, &i, "hash:Sha3_256") == Some(want), || format!("the identity is {}", s.shows(&i[..1.min(i.len())])));
    }
}
/// public keys obtained in every way
fn keys(which: usize) -> Job {
    one(move |s, fs| {
        match which {
            0 => { let a = unknown(s, "gen", 0, "seed"); if let Some(r) = call(s, "gen", vec![a]) { if let Some(r) = split(s, "gen", &r, 2) { consistent(s, fs, "gen", &r[0].0, Terms::TRUE) } } }
            1 => { let a = unknown(s, "try_decompress", 0, "b"); if let Some(r) = call(s, "try_decompress", vec![a]) { let (c, k) = outcome(s, "try_decompress", &r); rule(fs, "some bytes are accepted", KEY, c != Terms::FALSE, || "decompression never succeeds".into()); consistent(s, fs, "try_decompress", &k, c) } }
            2 => {
                let n = arg_flat_len(s, "try_decompress", 0) + 32;
                let b = s.bytes("b", n, 0); let v = s.slice(&b);
                if let Some(r) = s.call("deserialize", vec![v]) { let (c, k) = outcome(s, "deserialize", &r); rule(fs, "some bytes are accepted", KEY, c != Terms::FALSE, || "deserialization never succeeds".into()); consistent(s, fs, "deserialize", &k, c) }
            }
            _ => {
                let a = unknown(s, "gen", 0, "seed"); let Some(r) = call(s, "gen", vec![a]) else { return }; let Some(r) = split(s, "gen", &r, 2) else { return };
                if let Some(k) = call(s, "dup", vec![r[0].0.clone()]) { consistent(s, fs, "clone", &k, Terms::TRUE) }
                if let Some(k) = call(s, "dup_secret", vec![r[1].0.clone()]) {
                    let (a, b) = (arg_flat(s, "dh", 1, &k), arg_flat(s, "dh", 1, &r[1].0));
                    rule(fs, "a clone is the same key", "vru_session::handshake::SecretKey::clone", a == b, || "the clone of a secret key differs from it".into())
                }
            }
        }
        s.follows(fs, "public keys");
    })
}
pub fn s06(d: &str, r: &mut Report) {
    r.what = "Abstract interpretation of every way to obtain a public key (generation, decompression of unknown bytes, cloning, deserialization of unknown bytes through a plain byte format). Rules on the value where the operation succeeds: the cached lattice hash is the hash of the encoded lattice key; decompressing the compressed form, deserializing the serialized form and cloning succeed unconditionally and give an equal key.".into();
    r.level = "proof".into(); r.trusted = trusted();
    run_jobs(wire(d), (0..4).map(keys).collect(), r);
    r.viol.retain(|v| !v.0.starts_with("the identity is"));
    for (n, k) in [("the cached hash is the hash of the lattice key", 4), ("the compressed form gives the key back", 4), ("the serialized form gives the key back", 8), ("a clone is the same key", 5)] { floor(r, n, k) }
}
pub fn s07(d: &str, r: &mut Report) {
    r.what = "Abstract interpretation of the identity of public keys obtained in every way, and of printing and parsing identities. Rules: the identity is the hash of the whole compressed form, whose decompression is the same key; the text written for an unknown identity parses unconditionally to the same identity; text that decodes to another number of bytes is refused, text that decodes to 33 bytes is accepted only if the first is zero, and then gives the other 32.".into();
    r.level = "proof".into(); r.trusted = trusted();
    let mut jobs: Vec<Job> = (0..4).map(keys).collect();
    jobs.push(one(|s, fs| {
        let anchor = "vru_session::handshake::Identity::fmt";
        let id = unknown(s, "show", 0, "id"); let want = arg_flat(s, "show", 0, &id);
        let fmt = unknown(s, "show", 1, "f");
        let k = s.it.events.len();
        call(s, "show", vec![id, fmt]);
        let text: Vec<T> = events(s, k, "write").concat();
        rule(fs, "the printed text names the identity", anchor, !text.is_empty(), || "nothing is printed".into());
        let v = s.slice(&text);
        if let Some(r) = s.call("parse", vec![v]) {
            let (ok, i) = outcome(s, "parse", &r); let i = arg_flat(s, "show", 0, &i);
            rule(fs, "the printed text names the identity", anchor, ok == Terms::TRUE && i == want, || format!("the printed text parses under {} as {}", s.show(ok), s.shows(&i[..1.min(i.len())])));
        }
        s.follows(fs, "text of an identity");
    }));
    jobs.push(one(|s, fs| {
        let anchor = "vru_session::handshake::Identity::from_str";
        for l in [0usize, 4, 40, 43, 44, 45, 48, 64, 88, 256, 388, 1000] { for n in (0..=45usize).chain([64, 65, 66, 97, 127, 128, 255, 256, 257, 288, 289, 290]) {
            s.it.decoded = n;
            let b = s.bytes(&format!("t{l}.{n}."), l, 0); let v = s.slice(&b);
            let Some(r) = s.call("parse", vec![v]) else { continue };
            let (ok, i) = outcome(s, "parse", &r);
            if n != 33 { rule(fs, "text of another length is refused", anchor, ok == Terms::FALSE, || format!("text that decodes to {n} bytes can be accepted")); continue }
            let e = s.it.t.app("untext:base64", &b);
            let (y, lead) = (s.it.t.sel(e, OPENED, 1), s.it.t.sel(e, 0, 8));
            let z = s.it.t.konst(0, 8); let zero = s.it.t.eq(lead, z);
            rule(fs, "text of another kind is refused", anchor, implies(s, ok, y) && implies(s, ok, zero) && ok != Terms::FALSE, || format!("text is accepted under {}", s.show(ok)));
            let want: Vec<T> = (1..33).map(|k| s.it.t.sel(e, k, 8)).collect();
            let i = arg_flat(s, "show", 0, &i); let i = unders(s, &i, ok);
            rule(fs, "the parsed identity is what the text encodes", anchor, i == want, || format!("the parsed identity is {}", s.shows(&i[..1.min(i.len())])));
        } }
        s.follows(fs, "text of an identity");
    }));
    run_jobs(wire(d), jobs, r);
    r.viol.retain(|v| v.0.starts_with("the identity is") || v.0.contains("text") || v.0.starts_with("the parsed") || v.0.starts_with("complete") || v.0.starts_with("the compressed form") || v.0.starts_with("some bytes"));
    for (n, k) in [("the identity is the hash of the compressed form", 4), ("the printed text names the identity", 2), ("text of another length is refused", 300), ("the parsed identity is what the text encodes", 8)] { floor(r, n, k) }
}
pub fn floor(r: &mut Report, n: &str, k: u64) { let c = r.rules.get(n).copied().unwrap_or(0); r.floor(n, c, k) }
