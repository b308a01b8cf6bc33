//! Properties of the key encapsulation mechanism, decided on the value numbers computed by the interpreter.
use crate::check::Report;
use crate::interp::*;
use crate::models;
use crate::term::*;
use crate::util;
use fxhash::{FxHashMap, FxHashSet};
use ir::*;
use std::collections::{BTreeMap, BTreeSet};

/// one entry point, analysed
pub struct Run { pub it: Interp<'static>, pub f: FnId, pub args: Vec<Val>, pub ins: Vec<Vec<T>>, pub out: Option<(State, Val)>, pub root: String }
impl Run {
    pub fn prepare(p: &'static Program, root: &str, taints: &[u64], install: &dyn Fn(&mut Interp)) -> Option<Run> {
        let mut it = Interp::new(p);
        install(&mut it);
        let f = it.find_fn(root)?;
        Some(Run { it, f, args: taints.iter().map(|_| Val::Undef).collect(), ins: vec![], out: None, root: root.into() }.with(taints))
    }
    fn with(mut self, taints: &[u64]) -> Run { self.start(taints); self }
    /// evaluate the entry point on fully unknown arguments
    pub fn start(&mut self, taints: &[u64]) {
        let mut st = State::default();
        let p = self.it.p;
        let mut args = vec![]; let mut ins = vec![];
        for (i, ty) in p.fns[self.f as usize].args.clone().iter().enumerate() {
            let tn = taints.get(i).copied().unwrap_or(0);
            let to = match p.tys[*ty as usize].kind { TyKind::Ref(to, _) => Some(to), _ => None };
            let ct = self.it.ct(to.unwrap_or(*ty));
            let v = self.it.input(&format!("a{i}"), ct, tn);
            ins.push(self.it.flat_v(&st, &v, ct));
            args.push(if to.is_some() { self.it.new_ptr(&mut st, v, ct) } else { v });
        }
        self.ins = ins; self.args = args.clone();
        self.out = self.it.start(self.f, st, args);
    }
    pub fn ret(&self) -> TyId { self.it.p.fns[self.f as usize].ret }
    /// the scalars of a component of the returned tuple
    pub fn part(&mut self, i: usize) -> Vec<T> {
        let ret = self.ret();
        let Some((st, v)) = self.out.clone() else { return vec![] };
        let ct = self.it.ct(ret);
        match self.it.p.tys[ret as usize].kind.clone() {
            TyKind::Tuple(v2) => match self.it.expand(&v, ct) { Val::Agg(x) => { let c = self.it.ct(v2[i]); self.it.flat_v(&st, &x[i], c) } _ => vec![] },
            _ => self.it.flat_v(&st, &v, ct),
        }
    }
    pub fn all(&mut self) -> Vec<T> { let ret = self.ret(); let Some((st, v)) = self.out.clone() else { return vec![] }; let ct = self.it.ct(ret); self.it.flat_v(&st, &v, ct) }
    pub fn fname(&self, f: FnId) -> String { self.it.p.fns[f as usize].path.clone() }
    /// functions of the workspace that were interpreted
    pub fn seen_ws(&self) -> Vec<String> { let mut v: Vec<String> = self.it.seen.iter().filter(|f| util::is_ws(&self.it.p.fns[**f as usize].krate)).map(|f| self.fname(*f)).collect(); v.sort(); v.dedup(); v }
    pub fn complete(&mut self, fs: &mut Findings) {
        for s in self.it.lost.clone() { fs.viol("complete analysis", format!("{}:{}", short_root(&self.root), s.chars().take(120).collect::<String>()), format!("the analysis cannot follow {s}")) }
        fs.ok("complete analysis", 1);
        if self.out.is_none() && self.it.lost.is_empty() { fs.viol("returns", self.root.clone(), format!("{} never returns", self.root)) }
        for f in self.seen_ws() { fs.funs.insert(f); }
    }
}
fn short_root(s: &str) -> String { s.rsplit("::").next().unwrap_or(s).to_string() }
/// what one job found (jobs run on threads of their own)
#[derive(Default)]
pub struct Findings { pub rules: BTreeMap<String, u64>, pub viol: Vec<(String, String)>, pub funs: BTreeSet<String>, pub notes: Vec<String>, pub counts: BTreeMap<String, u64> }
impl Findings {
    pub fn ok(&mut self, r: &str, n: u64) { *self.rules.entry(r.into()).or_default() += n }
    pub fn viol(&mut self, r: &str, key: String, what: String) { let k = format!("{r}:{key}"); if !self.viol.iter().any(|v| v.0 == k) { self.viol.push((k, what)) } }
    pub fn must(&mut self, r: &str, holds: bool, key: impl FnOnce() -> String, what: impl FnOnce() -> String) { self.ok(r, 1); if !holds { self.viol(r, key(), what()) } }
    pub fn count(&mut self, w: &str, n: u64) { *self.counts.entry(w.into()).or_default() += n }
    pub fn merge(self, r: &mut Report) {
        for (k, n) in self.rules { r.add(&k, n) }
        for (k, w) in self.viol { if !r.viol.iter().any(|v| v.0 == k) { r.viol.push((k, w)) } }
        for f in self.funs { r.fun(&f) }
        r.notes.extend(self.notes);
        for (w, n) in self.counts { r.note_count(&w, n) }
    }
}
pub type Job = Box<dyn FnOnce(&'static Program) -> Findings + Send>;
/// run jobs on up to eight threads, each with a stack of its own
pub fn run_jobs(p: &'static Program, jobs: Vec<Job>, r: &mut Report) {
    let q = std::sync::Mutex::new(jobs.into_iter().enumerate().rev().collect::<Vec<_>>());
    let out = std::sync::Mutex::new(vec![]);
    std::thread::scope(|s| {
        for _ in 0..8 {
            std::thread::Builder::new().stack_size(2 << 30).spawn_scoped(s, || loop {
                let j = q.lock().unwrap().pop();
                let Some((i, j)) = j else { return };
                let f = j(p);
                out.lock().unwrap().push((i, f));
            }).expect("thread");
        }
    });
    let mut o = out.into_inner().unwrap();
    o.sort_by_key(|x| x.0);
    for (_, f) in o { f.merge(r) }
}
pub fn program(dir: &str) -> &'static Program { Box::leak(Box::new(util::load(dir, "roots"))) }

const WIDTHS: [&str; 3] = ["w2", "w3", "w4"];
fn root(w: &str, n: &str) -> String { format!("kyber::{w}::{n}") }
fn missing(n: &str) -> Findings { let mut f = Findings::default(); f.viol("anchor", n.into(), format!("entry point {n} is gone")); f }
fn job(w: &'static str, n: &'static str, taints: &'static [u64], f: impl FnOnce(&mut Run, &mut Findings) + Send + 'static) -> Job {
    Box::new(move |p| {
        let name = root(w, n);
        let Some(mut r) = Run::prepare(p, &name, taints, &models::install) else { return missing(&name) };
        let mut fs = Findings::default();
        r.complete(&mut fs);
        f(&mut r, &mut fs);
        fs
    })
}
/// nothing that can fail at run time is left
pub fn no_failure(r: &mut Run, fs: &mut Findings) {
    let sites = r.it.ok_asserts.len() as u64;
    let n: u64 = r.it.ok_asserts.values().sum();
    fs.ok("no overflow, no out-of-range access, no panic", n);
    fs.count("checked operations proved safe (sites)", sites);
    for a in r.it.alarms.clone() {
        let (w, g) = (r.fname(a.ws), r.fname(a.func));
        fs.viol("no overflow, no out-of-range access, no panic", format!("{}:{w}", a.kind), format!("{} can fail in {g}, reached from {w} at {} (entry {}): {}", a.kind, util::line(r.it.p, a.span), r.root, a.text));
    }
}
/// is every term the same as the corresponding one of the other sequence?
fn same(a: &[T], b: &[T]) -> Option<usize> { if a.len() != b.len() { return Some(a.len().min(b.len())) } a.iter().zip(b).position(|(x, y)| x != y) }

pub fn k01(dir: &str, r: &mut Report) {
    r.what = "Abstract interpretation (value numbers with intervals, joins at postdominators, widening at data-dependent loops) of the compiler's MIR of every operation of the mechanism at widths 2, 3, 4 over unknown inputs: arbitrary seeds, arbitrary bytes as public key, secret key and ciphertext, and freshly generated keys. Rule: every overflow, bounds and division check and every call of a panic routine is unreachable for all inputs.".into();
    r.level = "proof".into();
    r.trusted = trusted();
    let p = program(dir);
    let mut jobs: Vec<Job> = vec![];
    for w in WIDTHS.into_iter().rev() { for n in ["fresh_ops", "decaps_wire", "encaps_wire", "sk_loop", "ct_loop", "pk_loop"] { jobs.push(job(w, n, &[], no_failure)) } }
    run_jobs(p, jobs, r);
    let n = r.counted("checked operations proved safe (sites)");
    r.floor("checked operations proved safe (sites)", n, 500);
}
pub fn trusted() -> Vec<String> {
    vec!["rustc MIR of the workspace, core, generic-array and subtle as exported by the driver".into(), "the interpreter's term rules (range, table and bit-slice simplifications)".into(), "meaning of sha3/digest (a hash or stream is a function of the absorbed bytes), of subtle's constant-time selection and comparison, and of byteorder".into()]
}

pub fn k02(dir: &str, r: &mut Report) {
    r.what = "The shared secret of decapsulation over arbitrary key and ciphertext bytes as a value number. Rule: it is a hash whose preimage contains (1) the whole hash of exactly the received ciphertext bytes and (2) 32 bytes selected by one condition between the hash of the recovered message and the 32 bytes of the rejection value, where the condition is the equality of every received ciphertext byte with its re-encryption; no panic and no other result.".into();
    r.level = "proof".into();
    r.trusted = trusted();
    let p = program(dir);
    let jobs = WIDTHS.into_iter().map(|w| job(w, "decaps_wire", &[], |r, fs| {
        no_failure(r, fs);
        let ss = r.part(0);
        let (sk, ct) = (r.ins[0].clone(), r.ins[3].clone());
        let w = r.root.clone();
        let f = "vru_kyber::kem::Kyber::decapsulate";
        let rej: Vec<T> = sk[sk.len().saturating_sub(32)..].to_vec();
        let t = &r.it.t;
        let top = hash_of(t, &ss);
        fs.must("the shared secret is one whole hash", top.is_some(), || f.into(), || format!("{f}: the result is not the complete output of one hash ({w})"));
        let Some(args) = top else { return };
        // the received ciphertext, hashed as a whole
        let mut cth = None;
        for k in 0..args.len() { if let K::Sel(h, 0) = t.k(args[k]) { if let Some((n, a)) = t.app_name(*h) { if n.starts_with("hash:") && a == &ct[..] { let len = (0..).take_while(|i| args.get(k + *i).map(|x| matches!(t.k(*x), K::Sel(g, j) if g == h && *j == *i as u32)).unwrap_or(false)).count(); if len == 32 { cth = Some(k) } } } } }
        fs.must("the key covers the received ciphertext unconditionally", cth.is_some(), || f.into(), || format!("{f}: the preimage of the shared secret does not contain the hash of the received ciphertext bytes unconditionally ({w})"));
        let Some(k) = cth else { return };
        let mut sel: Vec<T> = args.clone(); sel.drain(k..k + 32);
        // selection between accepted and rejected
        let mut conds = FxHashSet::default(); let (mut acc, mut rjt) = (vec![], vec![]); let mut flipped = false;
        for x in &sel { if let K::Ite(c, a, b) = *t.k(*x) { if let K::Not(d) = *t.k(c) { conds.insert(d); acc.push(b); rjt.push(a); flipped = true } else { conds.insert(c); acc.push(a); rjt.push(b) } } }
        let _ = flipped;
        fs.must("the key is selected by one condition", conds.len() == 1 && acc.len() == sel.len() && sel.len() == 32, || f.into(), || format!("{f}: {} of {} key bytes are selected, under {} different conditions ({w})", acc.len(), sel.len(), conds.len()));
        let Some(c) = conds.into_iter().next() else { return };
        let rset: FxHashSet<T> = rjt.iter().copied().collect();
        fs.must("rejection uses the whole secret rejection value", rset.len() == 32 && rej.iter().all(|x| rset.contains(x)), || f.into(), || format!("{f}: on rejection {} of 32 bytes come from the rejection value ({w})", rej.iter().filter(|x| rset.contains(x)).count()));
        // the accepted key is derived from the recovered message
        let mut h = FxHashSet::default();
        for x in &acc { if let K::Sel(a, _) = *t.k(*x) { h.insert(a); } else { h.insert(*x); } }
        let aset: FxHashSet<T> = acc.iter().copied().collect();
        let good = h.len() == 1 && aset.len() == 32 && h.iter().all(|x| t.app_name(*x).map(|n| n.0.starts_with("hash:")).unwrap_or(false));
        fs.must("the accepted key is derived from the recovered message", good, || f.into(), || format!("{f}: the accepted key is not 32 bytes of one hash of the recovered message ({w})"));
        if good {
            let hb: Vec<T> = t.app_name(*h.iter().next().unwrap()).unwrap().1.to_vec();
            let skset: FxHashSet<T> = sk[..sk.len() - 32].iter().copied().collect();
            let msg: Vec<T> = hb.iter().copied().filter(|x| t.deps(&[*x]).iter().any(|d| skset.contains(d))).collect();
            let d: FxHashSet<T> = msg.iter().copied().collect();
            fs.must("the accepted key covers the whole recovered message", d.len() == 32, || f.into(), || format!("{f}: the hash behind the accepted key covers {} bytes of the recovered message instead of 32 ({w})", d.len()));
        }
        // equality with every byte of the received ciphertext
        let conj: Vec<T> = match t.k(c) { K::And(v) => v.to_vec(), _ => vec![c] };
        let mut cov = 0;
        for x in &ct {
            let hit = conj.iter().any(|e| if let K::Eq(a, b) = *t.k(*e) { (a == *x) != (b == *x) && { let o = if a == *x { b } else { a }; t.c(o).is_none() && !ct.contains(&o) } } else { false });
            if hit { cov += 1 }
        }
        fs.ok("every received byte is compared with the re-encryption", ct.len() as u64);
        fs.must("every received byte is compared with the re-encryption", cov == ct.len(), || f.into(), || format!("{f}: only {cov} of {} received ciphertext bytes are compared with the re-encryption before the key of the recovered message is used ({w})", ct.len()));
        fs.count("ciphertext bytes compared", cov as u64);
    })).collect();
    run_jobs(p, jobs, r);
    let n = r.counted("ciphertext bytes compared"); r.floor("ciphertext bytes compared", n, 800 + 1152 + 1504 - 1);
}
/// the preimage if the terms are all bytes of one hash, in order
pub fn hash_of(t: &Terms, xs: &[T]) -> Option<Vec<T>> {
    let K::Sel(h, 0) = *t.k(*xs.first()?) else { return None };
    if !xs.iter().enumerate().all(|(i, x)| matches!(*t.k(*x), K::Sel(g, j) if g == h && j == i as u32)) { return None }
    let (n, a) = t.app_name(h)?;
    if n.starts_with("hash:") { Some(a.to_vec()) } else { None }
}

pub fn k03(dir: &str, r: &mut Report) {
    r.what = "Encapsulation and decapsulation with the same (arbitrary) keys, evaluated on value numbers; then evaluated again with each byte of the recovered message identified with the encapsulated one. Rule: the two shared secrets are the same 32 value numbers. A generated public key and its decoded encoding are the same value numbers in every coefficient, matrix entry and seed byte, so the result carries over to every combination of fresh and decoded keys.".into();
    r.level = "proof".into();
    r.trusted = trusted();
    let p = program(dir);
    let mut jobs: Vec<Job> = vec![];
    for w in WIDTHS.into_iter().rev() {
        jobs.push(job(w, "agree", &[], |r, fs| {
            let w = r.root.clone();
            let f = "vru_kyber::kem::Kyber::decapsulate";
            let (sk, es) = (r.ins[0].clone(), r.ins[3].clone());
            let dep = |t: &Terms, xs: &[T], s: &FxHashSet<T>| xs.iter().any(|x| t.deps(&[*x]).iter().any(|d| s.contains(d)));
            let sks: FxHashSet<T> = sk.iter().copied().collect(); let ess: FxHashSet<T> = es.iter().copied().collect();
            let ev: Vec<(String, Vec<T>)> = r.it.events.iter().filter(|e| e.kind.starts_with("hash:")).map(|e| (e.kind.clone(), e.terms.clone())).collect();
            let t = &r.it.t;
            let Some(b) = ev.iter().find(|e| dep(t, &e.1, &sks)) else { fs.viol("anchor", "decapsulation hashes".into(), "decapsulation does not hash the recovered message".into()); return };
            let Some(a) = ev.iter().find(|e| e.0 == b.0 && e.1.len() == b.1.len() && !dep(t, &e.1, &sks) && dep(t, &e.1, &ess)) else { fs.viol("the same derivation on both sides", f.into(), format!("encapsulation has no {} of {} bytes like decapsulation ({w})", b.0, b.1.len())); return };
            let diff: Vec<usize> = (0..b.1.len()).filter(|i| a.1[*i] != b.1[*i]).collect();
            let msg: Vec<usize> = (0..b.1.len()).filter(|i| dep(t, &[b.1[*i]], &sks)).collect();
            fs.must("both sides derive from the message and the key hash alone", diff == msg && msg.len() == 32, || f.into(), || format!("the two sides derive the key from inputs that differ in bytes {:?} although the message is in {:?} ({w})", diff.iter().take(5).collect::<Vec<_>>(), msg.iter().take(5).collect::<Vec<_>>()));
            let pairs: Vec<(T, T)> = msg.iter().map(|i| (b.1[*i], a.1[*i])).collect();
            for (x, y) in pairs { r.it.t.facts_eq.insert(x, y); }
            r.start(&[]);
            let (s1, s2) = (r.part(0), r.part(1));
            fs.ok("shared secret bytes equal", 32);
            let d = same(&s1, &s2);
            fs.must("shared secret bytes equal", d.is_none() && s1.len() == 32, || f.into(), || format!("byte {} of the shared secret differs between encapsulation and decapsulation although the message was recovered ({w})", d.unwrap_or(0)));
            fs.count("shared secrets compared", 1);
        }));
        jobs.push(job(w, "pk_fresh", &[], |r, fs| {
            let (a, b) = (r.part(0), r.part(1));
            // decoding returns a result: the key follows the discriminant
            let d = same(&a, &b);
            fs.ok("a generated public key equals its decoded encoding", a.len() as u64);
            fs.must("a generated public key equals its decoded encoding", d.is_none() && a.len() > 500, || "vru_kyber::indcpa::key_pair".into(), || format!("component {} of {} of a generated public key differs from the decoded one ({})", d.unwrap_or(0), a.len(), r.root));
            fs.count("public key components compared", a.len() as u64);
        }));
    }
    run_jobs(p, jobs, r);
    let n = r.counted("shared secrets compared"); r.floor("shared secrets compared", n, 3);
}

pub fn k04(dir: &str, r: &mut Report) {
    r.what = "Taint over value numbers: seeds for noise and encapsulation, secret key bytes (rejection value included) and all that is computed from them are secret; the bytes of the generated public key, received keys and ciphertexts are public. Rule: no branch condition, match, loop exit, index, store index or comparison of memory executed by generation, encapsulation, decapsulation or secret-key encoding depends on a secret other than through public bytes.".into();
    r.level = "proof".into();
    r.trusted = trusted();
    r.trusted.push("the implementation of the hash functions, of subtle and of the code generated by the compiler (constant time at the level of MIR only)".into());
    let p = program(dir);
    let mut jobs: Vec<Job> = vec![];
    fn steer(r: &mut Run, fs: &mut Findings, public: &[T]) {
        let p: FxHashSet<T> = public.iter().copied().collect();
        fs.ok("steering value independent of secrets", r.it.steered);
        fs.count("branches and indices on unknown values", r.it.steered);
        for b in r.it.branches.clone() {
            // a dependence that does not pass through a public byte
            let mut seen: FxHashSet<T> = Default::default(); let mut w = vec![b.cond]; let mut hit = None;
            while let Some(x) = w.pop() { if p.contains(&x) || !seen.insert(x) || r.it.t.taint(x) == 0 { continue } if let K::Atom(_) = r.it.t.k(x) { hit = Some(x); break } w.extend(r.it.t.children(x)) }
            if let Some(h) = hit {
                let (f, g) = (r.fname(b.ws), r.fname(b.func));
                let s = r.it.t.show(h);
                fs.viol("steering value independent of secrets", format!("{}:{f}", b.what), format!("a {} in {g}, executed by {f} at {}, depends on the secret {s} (entry {})", b.what, util::line(r.it.p, b.span), r.root));
            }
        }
    }
    for w in WIDTHS.into_iter().rev() {
        jobs.push(job(w, "fresh_ops", &[1, 2, 0, 0], |r, fs| { let pk = r.part(3); fs.must("generated public key known", pk.len() > 500, || r.root.clone(), || "no public key bytes".into()); steer(r, fs, &pk) }));
        jobs.push(job(w, "decaps_wire", &[1, 0, 0, 0], |r, fs| steer(r, fs, &[])));
        jobs.push(job(w, "encaps_wire", &[2, 0, 0], |r, fs| steer(r, fs, &[])));
        jobs.push(job(w, "generate_bytes", &[1], |r, fs| { let pk = r.part(0); steer(r, fs, &pk) }));
    }
    run_jobs(p, jobs, r);
    let n = r.counted("branches and indices on unknown values"); r.floor("branches and indices on unknown values", n, 20);
}

pub fn k05(dir: &str, r: &mut Report) {
    r.what = "encode(decode(bytes)) of public keys and ciphertexts over arbitrary bytes, and decode(encode(key)) of generated secret keys, as value numbers. Rule: every byte comes back as the identical value number; every coefficient of the decoded secret key is, for every value the original can take, congruent to the original modulo q; rejection bytes are identical.".into();
    r.level = "proof".into();
    r.trusted = trusted();
    let p = program(dir);
    let mut jobs: Vec<Job> = vec![];
    for w in WIDTHS.into_iter().rev() {
        for n in ["pk_loop", "ct_loop"] {
            jobs.push(job(w, n, &[], move |r, fs| {
                let (a, b) = (r.ins[0].clone(), r.part(0));
                let d = same(&a, &b);
                let what = if n == "pk_loop" { "public key" } else { "ciphertext" };
                fs.ok("decoded and encoded byte unchanged", a.len() as u64);
                fs.must("decoded and encoded byte unchanged", d.is_none(), || what.into(), || format!("byte {} of {} of a {what} changes when it is decoded and encoded again ({})", d.unwrap_or(0), a.len(), r.root));
                fs.count("bytes that survive", a.len() as u64);
            }));
        }
        jobs.push(job(w, "sk_loop", &[], |r, fs| {
            let (a, b) = (r.part(0), r.part(1));
            let mut bad = None; let mut n = 0; let mut memo = Default::default();
            if a.len() != b.len() { bad = Some(0) } else {
                for i in 0..a.len() {
                    if a[i] == b[i] { n += 1; continue }
                    match congruent(&r.it.t, a[i], b[i], 7681, &mut memo) { true => n += 1, false => { bad = Some(i); break } }
                }
            }
            fs.ok("decoded coefficient congruent to the original", a.len() as u64);
            fs.must("decoded coefficient congruent to the original", bad.is_none() && n > 500, || "secret key".into(), || format!("component {} of a generated secret key is not congruent to its decoded encoding ({})", bad.unwrap_or(0), r.root));
            fs.count("coefficients congruent", n);
        }));
    }
    run_jobs(p, jobs, r);
    let n = r.counted("bytes that survive"); r.floor("bytes that survive", n, 5000);
    let n = r.counted("coefficients congruent"); r.floor("coefficients congruent", n, 2000);
}
/// do two terms agree modulo q for all inputs?
fn congruent(t: &Terms, a: T, b: T, q: u128, memo: &mut ResMemo) -> bool { residue(t, a, q, None, memo) == residue(t, b, q, None, memo) }
/// a value modulo q as a sum of multiples of terms
type Residue = (u128, BTreeMap<T, u128>);
#[derive(Default)]
struct ResMemo { res: FxHashMap<(T, Option<(T, bool)>), Residue>, fit: FxHashMap<(Op, u128, u128, u128, u128, u128), bool> }
fn residue(t: &Terms, x: T, q: u128, given: Option<(T, bool)>, memo: &mut ResMemo) -> Residue {
    if let Some(r) = memo.res.get(&(x, given)) { return r.clone() }
    let add = |a: Residue, b: Residue, k: u128| -> Residue { let mut m = a.1; for (y, c) in b.1 { let e = m.entry(y).or_insert(0); *e = (*e + c * k) % q; } m.retain(|_, c| *c != 0); ((a.0 + b.0 * k) % q, m) };
    let m = mask(t.w(x));
    // does the operation stay within its type for every value of what both operands are functions of?
    let fits = |op: Op, a: T, b: T, memo: &mut ResMemo| -> bool {
        let ((al, ah), (bl, bh)) = (t.range(a), t.range(b));
        let ok = |u: u128, v: u128| match op { Op::Add => u + v <= m, Op::Sub => u >= v, Op::Mul => u.checked_mul(v).map(|z| z <= m).unwrap_or(false), _ => false };
        if (op == Op::Sub && al >= bh) || (op != Op::Sub && ok(ah, bh)) { return true }
        let _ = bl;
        let (ca, cb) = (t.chain(a), t.chain(b));
        let shared: Vec<T> = if t.c(a).is_some() { cb } else if t.c(b).is_some() { ca } else { ca.into_iter().filter(|y| cb.contains(y)).collect() };
        for root in shared {
            let (lo, hi) = t.range(root);
            if hi - lo >= 1 << 17 { continue }
            let sh = |y: T| t.shape(y, root, &mut Default::default());
            let mut check = |g: Option<(T, bool)>| -> bool {
                let key = (op, sh(a), sh(b), lo, hi, g.map(|(c, v)| sh(c) ^ v as u128).unwrap_or(0));
                if let Some(r) = memo.fit.get(&key) { return *r }
                let r = (lo..=hi).all(|v| {
                    let mut p = Default::default();
                    if let Some((c, b)) = g { if t.eval_at(c, root, v, &mut p).map(|x| (x != 0) != b).unwrap_or(false) { return true } }
                    matches!((t.eval_at(a, root, v, &mut p), t.eval_at(b, root, v, &mut p)), (Some(u), Some(w)) if ok(u, w))
                });
                memo.fit.insert(key, r);
                r
            };
            if check(None) { return true }
            // only under the condition of the selection
            return given.map(|(c, _)| t.eval_at(c, root, lo, &mut Default::default()).is_some()).unwrap_or(false) && check(given)
        }
        false
    };
    let atom = |x: T| -> Residue { (0, BTreeMap::from([(x, 1)])) };
    let r = match t.k(x).clone() {
        K::Const(c) => (c % q, BTreeMap::new()),
        K::Bin(op @ (Op::Add | Op::Sub), a, b) if fits(op, a, b, memo) => { let (u, v) = (residue(t, a, q, given, memo), residue(t, b, q, given, memo)); add(u, v, if op == Op::Add { 1 } else { q - 1 }) }
        K::Bin(Op::Mul, a, b) if t.c(b).is_some() && fits(Op::Mul, a, b, memo) => { let u = residue(t, a, q, given, memo); add((0, BTreeMap::new()), u, t.c(b).unwrap() % q) }
        K::Cat(s) if s.len() == 1 && s[0].lo == 0 && s[0].len >= bits(t.range(s[0].src).1) => residue(t, s[0].src, q, given, memo),
        K::Tab(r, id) => {
            let (lo, hi) = t.range(r); let tab = t.table(id);
            let vals: Vec<(u128, u128)> = (lo..=hi).filter_map(|v| tab.get(v as usize).map(|e| (v % q, *e as u128 % q))).collect();
            let c0 = vals[0].1;
            if vals.iter().all(|v| v.1 == c0) { (c0, BTreeMap::new()) } else {
                let d = (vals[0].1 + q - vals[0].0) % q;
                if vals.iter().all(|v| (v.1 + q - v.0) % q == d) { let u = residue(t, r, q, given, memo); add(u, (d, BTreeMap::new()), 1) } else { atom(x) }
            }
        }
        K::Ite(c, a, b) => { let (u, v) = (residue(t, a, q, Some((c, true)), memo), residue(t, b, q, Some((c, false)), memo)); if u == v { u } else { atom(x) } }
        _ => atom(x),
    };
    memo.res.insert((x, given), r.clone());
    r
}

/// the streams of pseudo-random bytes a term depends on
pub fn streams(t: &Terms, x: T, memo: &mut FxHashMap<T, BTreeSet<T>>) -> BTreeSet<T> {
    if let Some(s) = memo.get(&x) { return s.clone() }
    let mut s = BTreeSet::new();
    if t.app_name(x).map(|n| n.0.starts_with("xof:")).unwrap_or(false) { s.insert(x); } else { for c in t.children(x) { s.extend(streams(t, c, memo)) } }
    memo.insert(x, s.clone());
    s
}
pub fn k06(dir: &str, r: &mut Report) {
    r.what = "The value numbers of generated keys, decoded public keys and ciphertexts, with the streams of pseudo-random bytes each depends on. Rules: a matrix entry is at most q-1 and depends on exactly one stream, made of the 32 public seed bytes and constants, a different one for each of the W*W positions; generation and decoding give the same entries; each secret polynomial, each error polynomial and each error of encapsulation depends on exactly one stream of its own, made of 32 secret bytes that occur nowhere in the output and constants.".into();
    r.level = "proof".into();
    r.trusted = trusted();
    let p = program(dir);
    let mut jobs: Vec<Job> = vec![];
    for (k, w) in WIDTHS.into_iter().enumerate().rev() {
        let wd = k + 2;
        jobs.push(job(w, "pk_decode", &[], move |r, fs| {
            let all = r.all();
            let seed: Vec<T> = r.ins[0][r.ins[0].len() - 32..].to_vec();
            let seedset: FxHashSet<T> = seed.iter().copied().collect();
            let t = &r.it.t; let mut memo = Default::default();
            let f = "vru_kyber::indcpa::gen_matrix";
            let ent: Vec<T> = all.iter().copied().filter(|x| !streams(t, *x, &mut memo).is_empty()).collect();
            fs.must("the matrix is complete", ent.len() == wd * wd * 256, || f.into(), || format!("{} of {} matrix entries are drawn from a stream ({})", ent.len(), wd * wd * 256, r.root));
            fs.count("matrix entries", ent.len() as u64);
            let mut by: BTreeMap<T, usize> = Default::default();
            for x in &ent {
                fs.ok("matrix entry below q", 1);
                if t.range(*x).1 >= 7681 { fs.viol("matrix entry below q", f.into(), format!("a matrix entry can be {} ({})", t.range(*x).1, r.root)) }
                let s = streams(t, *x, &mut memo);
                if s.len() != 1 { fs.viol("matrix entry from one stream", f.into(), format!("a matrix entry depends on {} streams ({})", s.len(), r.root)) }
                for y in s { *by.entry(y).or_default() += 1 }
            }
            fs.must("a stream for every matrix position", by.len() == wd * wd && by.values().all(|n| *n == 256), || f.into(), || format!("the {} matrix entries are drawn from {} streams ({})", wd * wd, by.len(), r.root));
            for (s, _) in &by {
                let a = t.app_name(*s).unwrap().1.to_vec();
                let sb: Vec<T> = a.iter().copied().filter(|x| t.c(*x).is_none()).collect();
                fs.must("matrix stream made of the whole public seed and the position", sb == seed, || f.into(), || format!("a matrix stream absorbs {} bytes other than constants, the public seed has 32 ({})", sb.len(), r.root));
            }
            for x in &ent { for d in t.deps(&[*x]) { if let K::Atom(_) = t.k(d) { if !seedset.contains(&d) { fs.viol("matrix entry depends on the public seed alone", f.into(), format!("a matrix entry depends on {} ({})", t.show(d), r.root)) } } } break }
        }));
        jobs.push(job(w, "pk_fresh", &[1], move |r, fs| {
            let (a, b) = (r.part(0), r.part(1));
            let t = &r.it.t; let mut memo = Default::default();
            let f = "vru_kyber::indcpa::gen_matrix";
            // entries whose streams are public on the decoding side
            let public: FxHashSet<T> = b.iter().copied().filter(|x| t.w(*x) == 8).collect();
            let is_pub = |s: T| t.app_name(s).unwrap().1.iter().all(|x| t.c(*x).is_some() || public.contains(x));
            let mut n = 0;
            for i in 0..a.len().min(b.len()) {
                let s = streams(t, b[i], &mut memo);
                if s.is_empty() || !s.iter().all(|x| is_pub(*x)) { continue }
                n += 1;
                fs.must("generation and decoding expand the same matrix", a[i] == b[i], || f.into(), || format!("matrix entry {n} differs between generation and decoding ({})", r.root));
            }
            fs.must("the matrix of a generated key is complete", n == wd * wd * 256, || f.into(), || format!("{n} of {} entries ({})", wd * wd * 256, r.root));
        }));
        jobs.push(job(w, "generate", &[1], move |r, fs| {
            let (pk, sk) = (r.part(0), r.part(1));
            let t = &r.it.t; let mut memo: FxHashMap<T, BTreeSet<T>> = Default::default();
            let f = "vru_kyber::indcpa::key_pair";
            let public: FxHashSet<T> = pk.iter().copied().filter(|x| t.w(*x) == 8).collect();
            let is_pub = |s: T| t.app_name(s).unwrap().1.iter().all(|x| t.c(*x).is_some() || public.contains(x));
            let mut noise = |xs: &[T]| -> Vec<BTreeSet<T>> { xs.iter().filter(|x| t.w(**x) > 8).map(|x| streams(t, *x, &mut memo).into_iter().filter(|s| !is_pub(*s)).collect::<BTreeSet<T>>()).collect() };
            let (s, q) = (noise(&sk), noise(&pk));
            let q: Vec<_> = q.into_iter().filter(|x| !x.is_empty()).collect();
            fs.must("every coefficient of the secret key is noise", s.len() == wd * 256 && s.iter().all(|x| !x.is_empty()), || f.into(), || format!("{} of {} secret coefficients depend on noise ({})", s.iter().filter(|x| !x.is_empty()).count(), wd * 256, r.root));
            fs.must("every coefficient of the public vector hides noise", q.len() == wd * 256, || f.into(), || format!("{} of {} public coefficients depend on noise ({})", q.len(), wd * 256, r.root));
            let sset: BTreeSet<T> = s.iter().flatten().copied().collect();
            separate(fs, &s, wd, f, "secret", &r.root);
            let e: Vec<BTreeSet<T>> = q.iter().map(|x| x.difference(&sset).copied().collect()).collect();
            separate(fs, &e, wd, f, "error", &r.root);
            seeded(fs, t, sset.iter().chain(e.iter().flatten()), &public, f, &r.root);
        }));
        jobs.push(job(w, "encaps_wire", &[2, 0, 0], move |r, fs| {
            let (ct, ss) = (r.part(0), r.part(1));
            let t = &r.it.t; let mut memo: FxHashMap<T, BTreeSet<T>> = Default::default();
            let f = "vru_kyber::indcpa::encapsulate";
            let n: Vec<BTreeSet<T>> = ct.iter().map(|x| streams(t, *x, &mut memo).into_iter().filter(|s| t.taint(*s) != 0).collect()).collect();
            let mut common = n[0].clone(); for x in &n { common = common.intersection(x).copied().collect() }
            fs.must("one blinding polynomial per dimension", common.len() == wd, || f.into(), || format!("{} streams are shared by all parts of the ciphertext instead of {wd} ({})", common.len(), r.root));
            let e: Vec<BTreeSet<T>> = n.iter().map(|x| x.difference(&common).copied().collect()).collect();
            separate(fs, &e, wd + 1, f, "error", &r.root);
            let key: FxHashSet<T> = hash_of(t, &ss).unwrap_or_default().into_iter().collect();
            seeded(fs, t, common.iter().chain(e.iter().flatten()), &key, f, &r.root);
        }));
    }
    run_jobs(p, jobs, r);
    let n = r.counted("matrix entries"); r.floor("matrix entries", n, 256 * 29);
    let n = r.counted("noise streams"); r.floor("noise streams", n, 4 + 6 + 8 + 5 + 7 + 9);
}
fn separate(fs: &mut Findings, xs: &[BTreeSet<T>], want: usize, f: &str, what: &str, root: &str) {
    let one = xs.iter().all(|x| x.len() == 1);
    fs.ok("one stream per noise polynomial", xs.len() as u64);
    fs.must("one stream per noise polynomial", one, || format!("{f}:{what}"), || format!("a value depends on {} {what} streams of its own instead of one ({root})", xs.iter().map(|x| x.len()).find(|n| *n != 1).unwrap_or(0)));
    let d: BTreeSet<T> = xs.iter().flatten().copied().collect();
    fs.must("no two noise polynomials share a stream", d.len() == want, || format!("{f}:{what}"), || format!("{want} {what} polynomials are drawn from {} streams ({root})", d.len()));
}
fn seeded<'a>(fs: &mut Findings, t: &Terms, streams: impl Iterator<Item = &'a T>, forbidden: &FxHashSet<T>, f: &str, root: &str) {
    let set: BTreeSet<T> = streams.copied().collect();
    let mut seeds: BTreeSet<Vec<T>> = BTreeSet::new();
    for s in &set {
        let a = t.app_name(*s).unwrap().1.to_vec();
        let sb: Vec<T> = a.iter().copied().filter(|x| t.c(*x).is_none()).collect();
        let d: FxHashSet<T> = sb.iter().copied().collect();
        fs.must("noise stream made of the whole secret noise seed", d.len() == 32 && sb.iter().all(|x| t.taint(*x) != 0 && !forbidden.contains(x)), || f.into(), || format!("a noise stream absorbs {} secret bytes, {} of them also used elsewhere ({root})", d.iter().filter(|x| t.taint(**x) != 0).count(), d.iter().filter(|x| forbidden.contains(x)).count()));
        seeds.insert(sb);
        fs.count("noise streams", 1);
    }
    fs.must("one noise seed per operation", seeds.len() == 1, || f.into(), || format!("noise is drawn from {} different seeds ({root})", seeds.len()));
}
