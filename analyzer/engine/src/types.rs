//! Rules over the type-checked program: what types can do, and what functions that code outside the crates may call take and give.
use crate::check::Report;
use crate::util;
use ir::*;
use std::collections::{BTreeMap, BTreeSet};

const STATE: &str = "vru_noise::SymmetricState";
const KEY: &str = "vru_noise::Key";

fn short(t: &str) -> String {
    // names without the long spelling of type-level numbers
    let mut o = String::new(); let mut d = 0;
    for c in t.chars() { match c { '<' => { if d == 0 { o.push('<') } d += 1 } '>' if d > 0 => { d -= 1; if d == 0 { o.push_str("..>") } } _ if d == 0 => o.push(c), _ => {} } }
    o
}
fn head(t: &str) -> &str { t.split('<').next().unwrap_or(t) }

/// types named by a probe function of the harness
fn probed(p: &Program, probe: &str) -> BTreeSet<String> { p.probes.iter().filter(|q| q.probe.ends_with(&format!("::{probe}"))).map(|q| q.ty.clone()).collect() }
fn has(p: &Program, probe: &str, ty: &str, tr: &str) -> Option<bool> { p.probes.iter().find(|q| q.probe.ends_with(&format!("::{probe}")) && head(&q.ty) == ty && q.trait_ == tr).map(|q| q.holds) }

/// the question asked of the trait solver is answered for types that do have the traits
fn witnesses(p: &Program, r: &mut Report, want: &[(&str, &str)]) {
    for (ty, tr) in want { let ok = p.probes.iter().any(|q| q.probe == "probe::witness" && q.ty.ends_with(ty) && q.trait_.ends_with(tr) && q.holds); r.must("the trait solver answers", ok, || format!("{ty}:{tr}"), || format!("{ty} is expected to implement {tr}: the question is not answered")) }
}
fn none_of(p: &Program, r: &mut Report, probe: &str, traits: &[&str], rule: &str, why: &str) -> usize {
    let tys = probed(p, probe);
    for t in &tys { for tr in traits {
        let q = p.probes.iter().find(|q| q.probe == format!("probe::{probe}") && q.ty == *t && q.trait_.rsplit("::").next() == Some(*tr));
        match q { Some(q) => r.must(rule, !q.holds, || format!("{}:{tr}", short(t)), || format!("{} implements {}: {why}", short(t), q.trait_)), None => r.must("the trait solver answers", false, || format!("{tr}"), || format!("no answer for {tr} of {}", short(t))) }
    } }
    tys.len()
}
/// implementations of one of the traits for one of the types, whatever their bounds
fn no_impl(p: &Program, r: &mut Report, adts: &BTreeSet<String>, traits: &[&str], rule: &str, why: &str, except: impl Fn(&ImplFact) -> bool) {
    for a in adts { for tr in traits {
        let hit = p.impls.iter().find(|i| i.self_adt == *a && i.trait_.rsplit("::").next() == Some(*tr) && !except(i));
        r.must(rule, hit.is_none(), || format!("{a}:{tr}"), || format!("`impl {}` in {}: {why}", hit.map(|h| short(&h.text)).unwrap_or_default(), hit.map(|h| h.krate.clone()).unwrap_or_default()));
    } }
}
struct Calls { to: BTreeMap<String, BTreeSet<String>> }
impl Calls {
    fn new(p: &Program) -> Calls {
        let mut to: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
        for s in &p.sigs {
            to.entry(s.path.clone()).or_default().extend(s.calls.iter().cloned());
            // a method of a trait leads to its implementations
            if let Some((l, m)) = s.path.rsplit_once(">::") { if let Some((_, t)) = l.rsplit_once(" as ").filter(|_| l.starts_with('<')) { to.entry(format!("{}::{m}", head(t))).or_default().insert(s.path.clone()); } }
        }
        Calls { to }
    }
    fn reach(&self, f: &str, hit: impl Fn(&str) -> bool) -> Option<String> {
        let mut seen = BTreeSet::new(); let mut w = vec![f.to_string()];
        while let Some(x) = w.pop() { if x != f && hit(&x) { return Some(x) } if let Some(v) = self.to.get(&x) { for y in v { if seen.insert(y.clone()) { w.push(y.clone()) } } } }
        None
    }
}
/// authenticated encryption and decryption
fn aead(f: &str) -> bool { let h = f.trim_start_matches('<'); (h.starts_with("aead::Aead") || f.contains(" as aead::Aead")) && (f.contains("crypt")) }
/// derivation of keys
fn derives(f: &str) -> bool { f.starts_with("vru_noise::hash::Hkdf") || f.starts_with("hkdf::") || f.starts_with("hmac::") || f.contains(" as vru_noise::hash::Hkdf") || f == "aead::NewAead::new" }
fn keyless(a: &str) -> bool { head(a).ends_with("GenericArray") || (a.contains("vru_noise::hash::MixHash>::L") && !a.contains(KEY)) }
/// does it hold a key, or the right to take the next step of a handshake?
fn single(steps: &BTreeSet<String>, h: &Held) -> bool {
    (h.path == STATE && h.args.get(1).map_or(true, |a| !keyless(a))) || h.path == KEY || steps.contains(&h.path)
}
/// number of states: a key inside a state counts once
fn count(steps: &BTreeSet<String>, v: &[Held]) -> usize {
    let st = v.iter().filter(|h| !h.by_ref && single(steps, h) && h.path != KEY).count();
    let keyed = v.iter().filter(|h| !h.by_ref && h.path == STATE && h.args.get(1).map_or(false, |a| head(a) == KEY)).count();
    let keys = v.iter().filter(|h| !h.by_ref && h.path == KEY).count();
    st + keys.saturating_sub(keyed)
}
fn fmt_trait(path: &str) -> bool { path.contains(" as std::fmt::") || path.contains(" as core::fmt::") }
fn cloning(path: &str) -> bool { path.contains(" as std::clone::Clone>::") || path.contains("impl std::clone::Clone for") }

pub fn n03(d: &str, r: &mut Report) {
    r.what = "Rules over the type-checked program. The compiler's trait solver is asked, for every type that holds a handshake key or the right to take the next handshake step, whether it implements a trait that makes another one out of it or out of nothing; no implementation of these traits for them exists whatever its bounds. Of every function that code outside the crates may call: one that takes such a state by reference gives no state and no cipher and reaches no encryption, decryption or key derivation (call graph over the generic bodies); one that consumes a state gives at most as many as it consumes, none for the same step, and after an encryption or decryption the type-level nonce is larger, while a nonce of zero comes only with a derived key; a keyed state is only made by consuming a state. No such type has a field that other crates may name.".into();
    r.level = "proof".into();
    r.trusted = vec!["rustc's trait solver, borrow checker and visibility rules; no unsafe code (D-checks of the crates forbid it)".into(), "the value of the type-level nonce is the one used: N02".into()];
    let p = util::load(d, "wire");
    witnesses(&p, r, &[("handshake::PublicKey", "Clone"), ("handshake::Identity", "Clone"), ("handshake::Identity", "Deserialize"), ("handshake::Identity", "ToOwned")]);
    let why = "a handshake state could be used twice with one key";
    let making = ["Clone", "Copy", "ToOwned", "Default", "Deserialize", "DeserializeOwned", "LineValid", "Line"];
    let n = none_of(&p, r, "single_use", &making, "a keyed state has no trait that makes another one", why);
    r.floor("types that hold a handshake key", n as u64, 7);
    let adts: BTreeSet<String> = probed(&p, "single_use").iter().map(|t| head(t).to_string()).collect();
    let steps: BTreeSet<String> = adts.iter().filter(|a| *a != STATE && *a != KEY).cloned().collect();
    let open = |i: &ImplFact| i.self_adt == STATE && { let a = i.self_ty.split_once('<').map(|x| x.1).unwrap_or(""); let k = a.splitn(2, ", ").nth(1).unwrap_or("").trim_end_matches('>'); (!k.is_empty() && k.chars().all(|c| c.is_alphanumeric() || c == '_')) || keyless(k) };
    no_impl(&p, r, &adts, &["Clone", "Copy", "Default", "ToOwned", "Deserialize", "LineValid", "Line"], "no such trait is implemented, whatever its bounds", why, open);
    let (mut ops, mut refs, mut consumers) = (0, 0, 0);
    let calls = Calls::new(&p);
    for f in p.fields.iter().filter(|f| adts.contains(&f.adt)) { r.must("no field is open to other crates", !f.public, || format!("{}.{}", f.adt, f.name), || format!("field {} of {} is public: a key can be taken out and used again, or a state put together", f.name, f.adt)) }
    for s in p.sigs.iter().filter(|s| util::is_ws(&s.krate) && s.reachable) {
        if fmt_trait(&s.path) || cloning(&s.path) { continue }
        let key = || s.path.clone();
        let byref = s.ins.iter().flatten().any(|h| h.by_ref && single(&steps, h));
        let taken: Vec<&Held> = s.ins.iter().flatten().filter(|h| !h.by_ref && single(&steps, h)).collect();
        let given = count(&steps, &s.out);
        let used: usize = s.ins.iter().map(|v| count(&steps, v)).sum();
        let crypt = calls.reach(&s.path, aead); let derive = calls.reach(&s.path, derives);
        if byref {
            refs += 1; r.fun(&s.path);
            let cipher = s.out.iter().find(|h| ["vru_noise::Cipher", "vru_noise::Unidirectional"].contains(&h.path.as_str()) || h.path.ends_with(" as vru_noise::Config>::Aead") || h.path.contains("ChaChaPoly1305"));
            r.must("a borrowed state gives no state and no cipher", given == 0 && cipher.is_none() && !s.out.iter().any(|h| h.path == KEY), key, || format!("{} only borrows a keyed state and gives {}: the state can be used again", s.path, short(&s.output)));
            let via = crypt.clone().or(derive.clone());
            r.must("a borrowed state is not operated on", via.is_none(), key, || format!("{} only borrows a keyed state and reaches {}: the same nonce or key can be used again", s.path, via.unwrap_or_default()));
        }
        if taken.is_empty() {
            if given > 0 && !byref { r.fun(&s.path); let fresh = s.out.iter().any(|h| !h.by_ref && (h.path == STATE || h.path == KEY || h.path.ends_with("InitiatorsFinal")) && single(&steps, h)); r.must("a keyed state is made from a consumed state", !fresh, key, || format!("{} gives a keyed state without consuming one", s.path)) }
            continue
        }
        consumers += 1; r.fun(&s.path);
        r.must("no more states come out than go in", given <= used, key, || format!("{} consumes {used} state(s) and gives {given}: {}", s.path, short(&s.output)));
        for h in s.out.iter().filter(|h| steps.contains(&h.path)) { r.must("a step does not come back", !taken.iter().any(|t| t.path == h.path), key, || format!("{} consumes and gives {}: the same step can be taken again", s.path, h.path)) }
        // the type-level nonce
        let from: Vec<&str> = taken.iter().filter(|h| h.path == STATE).filter_map(|h| h.args.get(1).map(|a| a.as_str())).chain(taken.iter().filter(|h| h.path == KEY).map(|h| h.args.get(1).map(|a| a.as_str()).unwrap_or(""))).collect();
        for h in s.out.iter().filter(|h| !h.by_ref && single(&steps, h) && h.path == STATE) {
            let a = h.args.get(1).cloned().unwrap_or_default();
            let grown = a.contains("as std::ops::Add<") || a.contains("typenum::Sum") || a.contains("Add1"); let same = from.contains(&a.as_str()); let zero = a.ends_with("typenum::UTerm>");
            let ok = if zero { derive.is_some() } else if crypt.is_some() { grown && !same } else { same || grown };
            r.must("the nonce grows with every use, and restarts only with a new key", ok, key, || format!("{} gives {}{}", s.path, a, if crypt.is_some() { " after an encryption or decryption" } else if zero { " without deriving a key" } else { "" }));
        }
        if crypt.is_some() || derive.is_some() { ops += 1 }
    }
    r.floor("functions that borrow a keyed state", refs, 1);
    r.floor("functions that consume a keyed state", consumers, 8);
    r.floor("consuming functions that encrypt, decrypt or derive", ops, 6);
}

pub fn s08(d: &str, r: &mut Report) {
    r.what = "Rules over the type-checked program. The compiler's trait solver is asked, for every type that holds secret key material, whether it can be formatted, displayed or serialized, or (except the bare lattice key) encoded as bytes; no implementation of these traits for them exists whatever its bounds. No function that code outside the crates may call takes such a type and gives text, writes to a formatter or reaches a serializer. Value rule: every component of a generated public key depends on the seed only through the derivation of a public key, a base point multiplication or a hash.".into();
    r.level = "proof".into();
    r.trusted = vec!["rustc's trait solver and visibility rules".into(), "public lattice keys, points and hashes do not reveal what they are made from".into()];
    let p: &'static Program = Box::leak(Box::new(util::load(d, "wire")));
    witnesses(p, r, &[("handshake::PublicKey", "Debug"), ("handshake::PublicKey", "Serialize"), ("handshake::Identity", "Debug"), ("handshake::Identity", "Display"), ("handshake::Identity", "ToString"), ("handshake::Identity", "ToHex")]);
    let why = "secret key material can be printed or stored by accident";
    let fmt = ["Debug", "Display", "LowerHex", "UpperHex", "Binary", "Octal", "LowerExp", "UpperExp", "Pointer", "ToString", "ToHex", "Serialize"];
    let n = none_of(p, r, "secret", &fmt, "a secret type is neither printed nor serialized", why);
    r.floor("types that hold secrets", n as u64, 12);
    let n = none_of(p, r, "opaque", &["LineValid", "Line"], "a secret type has no byte encoding", why);
    r.floor("types that hold secrets and have no byte encoding", n as u64, 9);
    r.must("the trait solver answers", p.probes.iter().any(|q| q.probe == "probe::witness" && q.trait_ == "rac::LineValid" && q.holds), || "LineValid".into(), || "the lattice public key is expected to implement LineValid".into());
    let _ = has;
    let adts: BTreeSet<String> = probed(p, "secret").iter().flat_map(|t| { let mut v = vec![head(t).to_string()]; for k in ["vru_kyber::indcpa::SecretKey"] { if t.contains(k) { v.push(k.to_string()) } } v }).filter(|a| a != "rac::Concat" && a != "vru_noise::Cipher" && a != "vru_noise::Unidirectional" && a != STATE).collect();
    no_impl(p, r, &adts, &fmt, "no such trait is implemented, whatever its bounds", why, |_| false);
    let secret = |h: &Held| adts.contains(&h.path) || (h.path == STATE && h.args.get(1).map_or(false, |a| !keyless(a)));
    let calls = Calls::new(p);
    let mut takers = 0;
    for s in p.sigs.iter().filter(|s| util::is_ws(&s.krate) && s.reachable) {
        if fmt_trait(&s.path) || !s.ins.iter().flatten().any(secret) { continue }
        takers += 1; r.fun(&s.path);
        let text = s.out.iter().any(|h| h.path == "std::string::String" || h.path == "alloc::string::String") || s.ins.iter().flatten().any(|h| h.path.ends_with("fmt::Formatter")) || s.output.contains("&str");
        r.must("no function turns a secret into text", !text, || s.path.clone(), || format!("{} takes secret key material and gives or writes text", s.path));
        let ser = calls.reach(&s.path, |f| f.starts_with("serde::Serialize") || f.starts_with("serde::ser::") || f.starts_with("serde_core::ser") || f.starts_with("serde::Serializer"));
        r.must("no function serializes a secret", ser.is_none(), || s.path.clone(), || format!("{} takes secret key material and reaches {}", s.path, ser.unwrap_or_default()));
    }
    r.floor("functions that take secrets", takers, 10);
    // what a public key is made of
    let (viol, n, bad_follow) = public_parts(p);
    r.add("a generated public key depends on the seed only one way", n);
    for (k, w) in viol { r.must("a generated public key depends on the seed only one way", false, || k.clone(), || w.clone()) }
    for w in bad_follow { r.must("complete analysis", false, || w.chars().take(80).collect(), || w.clone()) }
    r.floor("components of a generated public key", n, 3);
}
fn public_parts(p: &'static Program) -> (Vec<(String, String)>, u64, Vec<String>) {
    use crate::term::*;
    let h = std::thread::Builder::new().stack_size(1 << 30).spawn(move || {
        let mut s = crate::sim::Sim::session(p);
        let seed = s.bytes("seed", 96, 0); let a = s.arr(&seed); let a = s.at("gen", 0, a);
        let mut viol = vec![]; let mut n = 0;
        if let Some(v) = s.call("gen", vec![a]) {
            let t = s.ret_ty("gen"); let pk = s.part("gen", &v, 0);
            let pt = if let TyKind::Tuple(x) = &p.tys[t as usize].kind { x[0] } else { t };
            let parts = s.flat(&pk, pt);
            for (i, c) in parts.iter().enumerate() {
                n += 1;
                let mut seen: fxhash::FxHashSet<T> = Default::default(); let mut w = vec![*c];
                while let Some(x) = w.pop() {
                    if !seen.insert(x) { continue }
                    if let Some((f, _)) = s.it.t.app_name(x) { if f == "kyber:pk" || f == "pt" || f.starts_with("hash:") { continue } }
                    if seed.contains(&x) { viol.push(("vru_session::handshake::PublicKey::gen".to_string(), format!("component {i} of a generated public key shows the seed: {}", s.show(*c)))); break }
                    w.extend(s.it.t.children(x));
                }
            }
        }
        (viol, n, s.it.lost.iter().cloned().collect::<Vec<_>>())
    });
    h.unwrap().join().unwrap_or((vec![], 0, vec!["the evaluation of the key generation failed".into()]))
}
