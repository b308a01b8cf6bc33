//! Control properties of the node crates (UDP, TCP, control listener, database), decided on the exploded
//! interprocedural graph of `flow.rs`.
use crate::check::Report;
use crate::flow::*;
use crate::util::{is_ws, load};
use fxhash::{FxHashMap, FxHashSet};
use ir::*;
use std::collections::{BTreeMap, BTreeSet};
#[path = "route.rs"]
pub mod route;

fn last(f: &Func) -> &str { f.path.rsplit("::").next().unwrap_or("") }
/// path without generic arguments
fn norm(s: &str) -> String {
    let mut o = String::new();
    let mut d = 0;
    let b: Vec<char> = s.chars().collect();
    let mut i = 0;
    // a leading '<' belongs to a qualified path
    while i < b.len() {
        match b[i] {
            '<' if i > 0 && (b[i - 1] == ':' || b[i - 1].is_alphanumeric() || b[i - 1] == '_') => { d += 1 }
            '>' if d > 0 && b[i - 1] != '-' => { d -= 1 }
            '<' if d > 0 => d += 1,
            c if d == 0 => o.push(c),
            _ => {}
        }
        i += 1;
    }
    o.replace("::::", "::")
}
fn is(f: &Func, ty: &str, name: &str) -> bool { last(f) == name && f.path.contains(ty) }

const CORE_INLINE: [&str; 7] = ["option", "result", "ops", "convert", "cmp", "iter", "mem"];
pub fn inline(f: &Func) -> bool {
    match f.krate.as_str() {
        "vru_udp" | "vru_tcp" | "vru_node" | "client" => true,
        "vru_session" => !f.path.contains("handshake"),
        "core" => {
            if f.path.contains("io::ErrorKind") || f.path.contains("io::error::ErrorKind") { return false }
            CORE_INLINE.iter().any(|m| ["core::", "std::"].iter().any(|c| { let k = format!("{c}{m}::"); f.path.starts_with(&k) || f.path.starts_with('<') && f.path.contains(&k) }))
        }
        "alloc" => true,
        _ => false,
    }
}
pub fn opts() -> Opts<'static> {
    Opts {
        inline: &inline,
        sticky: &|f| last(f) == "recv_from",
        guard: &is_guard,
    }
}
fn is_guard(f: &Func) -> bool { is_cell(f) || is_lock(f) }
fn is_cell(f: &Func) -> bool { f.path.contains("RefCell") && matches!(last(f), "borrow" | "borrow_mut") }
fn is_lock(f: &Func) -> bool { (f.path.contains("Mutex") && last(f) == "lock") || (f.path.contains("RwLock") && matches!(last(f), "read" | "write")) }
fn is_join(f: &Func) -> bool { f.path.contains("thread") && f.path.contains("JoinHandle") && last(f) == "join" }
fn is_recv(f: &Func) -> bool { f.path.contains("mpsc") && matches!(last(f), "recv" | "recv_timeout" | "recv_deadline") || f.path.contains("mpsc") && last(f) == "next" }
fn is_any_recv(f: &Func) -> bool { is_recv(f) || f.path.contains("mpsc") && last(f) == "try_recv" }
fn is_send(f: &Func) -> bool { f.path.contains("mpsc") && matches!(last(f), "send" | "try_send") && f.path.contains("Sender") }
/// calls that return only when another thread does something
fn is_block(f: &Func) -> bool {
    f.path.contains("SyncSender") && last(f) == "send" || f.path.contains("Condvar") && matches!(last(f), "wait" | "wait_while") || f.path.contains("Barrier") && last(f) == "wait"
        || f.krate == "std" && f.path.contains("thread") && last(f) == "park"
}
fn is_spawn(f: &Func) -> bool { f.path.contains("thread") && matches!(last(f), "spawn" | "spawn_scoped" | "spawn_unchecked") && f.krate == "std" }
fn is_handler(f: &Func) -> bool { f.krate == "ctrlc" && last(f).contains("set_handler") }
fn is_load(f: &Func) -> bool { f.path.contains("Atomic") && last(f) == "load" }
fn is_poll(f: &Func) -> bool { f.krate == "popol" && last(f).starts_with("wait") || f.krate == "mio" && last(f) == "poll" }
fn is_accept_mio(f: &Func) -> bool { f.krate == "mio" && last(f) == "accept" }
fn is_wait(f: &Func) -> bool { is_poll(f) || f.krate == "std" && (is(f, "UdpSocket", "recv_from") || is(f, "UdpSocket", "recv") || is(f, "Listener", "accept")) }

pub struct One<'a> { pub name: String, pub kind: Kind, pub f: Flow<'a> }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind { Entry, Thread, Handler }

fn closure_body(p: &Program, t: TyId) -> Option<FnId> { match &p.tys[t as usize].kind { TyKind::Closure { body, .. } => Some(*body), TyKind::FnDef(f) => Some(*f), _ => None } }
/// closures of the workspace that are started as threads
fn threads(p: &Program) -> Vec<(FnId, Kind)> {
    let mut o = vec![];
    for f in &p.fns {
        let k = if is_spawn(f) { Kind::Thread } else if is_handler(f) { Kind::Handler } else { continue };
        for t in &f.targs { if let Some(b) = closure_body(p, *t) { if is_ws(&p.fns[b as usize].krate) && p.fns[b as usize].body.is_some() && !o.contains(&(b, k)) { o.push((b, k)) } } }
    }
    o
}
pub fn flows<'a>(p: &'a Program, entries: &dyn Fn(&Func) -> bool, r: &mut Report) -> Vec<One<'a>> {
    let mut v = vec![];
    for (i, f) in p.fns.iter().enumerate() { if f.body.is_some() && !f.is_closure && entries(f) { v.push((i as FnId, Kind::Entry)) } }
    for (t, k) in threads(p) { v.push((t, k)) }
    let mut o = vec![];
    for (i, k) in v {
        let mut op = opts();
        // the node crates have entry points of their own
        if matches!(p.fns[i as usize].krate.as_str(), "vru_node" | "client") { op.inline = &|f| inline(f) && f.krate != "vru_tcp" }
        let f = Flow::run(p, i, op);
        let name = f.func(i).path.clone();
        if f.overflow { r.must("the call graph is analysed completely", false, || name.clone(), || format!("the flow graph of {name} exceeds the analysis limits")) }
        for c in &f.cx { let g = f.func(c.f); if is_ws(&g.krate) { let n = if g.path.contains(&g.krate) { norm(&g.path) } else { format!("{}::{}", g.krate, norm(&g.path)) }; r.fun(&n) } }
        o.push(One { name, kind: k, f })
    }
    o
}
fn udp_entry(f: &Func) -> bool { f.krate == "vru_udp" && matches!(last(f), "spawn" | "command" | "join") && f.path.contains("Node::") }
fn tcp_entry(f: &Func) -> bool { f.krate == "vru_node" && f.path == "main" || f.krate == "vru_tcp" && matches!(last(f), "spawn" | "command" | "join") && f.path.contains("Node<") }

fn key(f: &Flow, i: usize) -> String { norm(&f.place_of(i).0) }
fn at(f: &Flow, i: usize) -> String { let (a, b) = f.place_of(i); format!("{} ({b})", norm(&a)) }
impl<'a> One<'a> {
    fn nodes(&self, pred: &dyn Fn(&Func) -> bool) -> Vec<usize> { self.f.calls(pred) }
    /// (node, callee, args, contents of args, result)
    fn evs(&self, pred: &dyn Fn(&Func) -> bool) -> Vec<(usize, FnId, &Vec<V>, &Vec<V>, Option<SId>)> {
        let mut o = vec![];
        for (i, n) in self.f.n.iter().enumerate() { for e in &n.ev { if let Ev::Call { f, args, derefs, res, .. } = e { if pred(self.f.func(*f)) { o.push((i, *f, args, derefs, *res)) } } } }
        o
    }
    fn returns(&self, i: usize) -> bool { self.f.n[i].ev.iter().any(|e| matches!(e, Ev::Return { .. })) }
    fn succ(&self, i: usize) -> Vec<usize> { self.f.n[i].succ.iter().map(|e| e.to).collect() }
    /// value tested on an edge, with negations resolved and `otherwise` of a two-way test resolved
    fn cond(&self, i: usize, e: &Edge) -> Option<(SId, Option<u128>, Vec<u128>)> {
        let (v, x) = e.cond.as_ref()?;
        let V::Sym(mut s) = v else { return None };
        let mut listed: Vec<u128> = self.f.n[i].succ.iter().filter_map(|e| e.cond.as_ref().and_then(|c| c.1)).collect();
        let mut x = *x;
        // a comparison of a variant with a constant is a test of the variant
        {
            let (mut t, mut y) = (s, if x.is_none() && listed.len() == 1 && listed[0] < 2 { Some(1 - listed[0]) } else { x });
            while let S::Un(0, V::Sym(u)) = &self.f.s[t as usize] { t = *u; y = y.map(|b| (b == 0) as u128) }
            if let (S::Bin(Bin::Eq, V::Sym(d), V::Int(k)), Some(y)) = (&self.f.s[t as usize], y) { if matches!(self.f.s[*d as usize], S::Discr(_)) { s = *d; listed = vec![*k]; x = if y == 1 { Some(*k) } else { None } } }
        }
        if x.is_none() && matches!(self.f.s[s as usize], S::Discr(_)) && self.two(s) && listed.len() == 1 && listed[0] < 2 { x = Some(1 - listed[0]) }
        loop { match &self.f.s[s as usize] { S::Un(0, V::Sym(y)) => { s = *y; x = x.map(|b| (b == 0) as u128) } _ => break } }
        Some((s, x, listed))
    }
    /// does the discriminated value belong to Option or Result (of a call)?
    fn two(&self, d: SId) -> bool {
        let S::Discr(s) = self.f.s[d as usize] else { return false };
        match &self.f.s[s as usize] { S::Call(_, _, g, _) => { let r = &self.f.p.tys[self.f.func(*g).ret as usize].name; r.starts_with("std::result::Result") || r.starts_with("std::option::Option") } _ => false }
    }
    /// edges on which the variant of `s` is `x`: targets
    fn variant_edges(&self, s: SId, x: u128) -> Vec<usize> {
        let mut o = vec![];
        for (i, n) in self.f.n.iter().enumerate() { for e in &n.succ { if let Some((d, Some(y), _)) = self.cond(i, e) { if y == x && matches!(self.f.s[d as usize], S::Discr(t) if t == s) { o.push(e.to) } } } }
        o
    }
    /// the edge tells that the variant of `s` is not `x`
    fn other_variant(&self, i: usize, e: &Edge, s: SId, x: u128) -> bool {
        match self.cond(i, e) { Some((d, y, listed)) if matches!(self.f.s[d as usize], S::Discr(t) if t == s) => match y { Some(y) => y != x, None => listed.contains(&x) }, _ => false }
    }
    /// nodes reached after the call at `i` with result `s` on paths on which nothing says that its variant is not `x`
    fn side(&self, i: usize, s: SId, x: u128, stop: &dyn Fn(usize) -> bool, cut: &dyn Fn(usize, &Edge) -> bool) -> FxHashSet<usize> {
        self.f.reach(&self.succ(i), stop, &|j, e| self.other_variant(j, e, s, x) || cut(j, e))
    }
    fn call_of(&self, s: SId) -> Option<(&'a Func, Vec<V>)> { match &self.f.s[s as usize] { S::Call(_, _, g, a) => Some((self.f.func(*g), a.to_vec())), _ => None } }
    fn is_running_false(&self, i: usize, e: &Edge) -> bool {
        match self.cond(i, e) { Some((s, Some(0), _)) => self.call_of(s).map(|c| is_load(c.0)).unwrap_or(false), _ => false }
    }
    /// strongly connected components with a cycle, leaving out some nodes
    fn sccs(&self, skip: &dyn Fn(usize) -> bool, cut: &dyn Fn(usize, &Edge) -> bool) -> Vec<Vec<usize>> {
        let n = self.f.n.len();
        let (mut idx, mut low, mut on) = (vec![u32::MAX; n], vec![0u32; n], vec![false; n]);
        let (mut st, mut out, mut c) = (vec![], vec![], 0u32);
        for r in 0..n {
            if idx[r] != u32::MAX || skip(r) { continue }
            let mut w: Vec<(usize, usize)> = vec![(r, 0)];
            while let Some(&(v, k)) = w.last() {
                if k == 0 { idx[v] = c; low[v] = c; c += 1; st.push(v); on[v] = true }
                if let Some(e) = self.f.n[v].succ.get(k) {
                    w.last_mut().unwrap().1 += 1;
                    if skip(e.to) || cut(v, e) { continue }
                    if idx[e.to] == u32::MAX { w.push((e.to, 0)) } else if on[e.to] { low[v] = low[v].min(idx[e.to]) }
                } else {
                    w.pop();
                    if let Some(&(u, _)) = w.last() { low[u] = low[u].min(low[v]) }
                    if low[v] == idx[v] {
                        let mut comp = vec![];
                        loop { let x = st.pop().unwrap(); on[x] = false; comp.push(x); if x == v { break } }
                        if comp.len() > 1 || self.f.n[v].succ.iter().any(|e| e.to == v && !cut(v, e)) { out.push(comp) }
                    }
                }
            }
        }
        out
    }
}
fn strip<'b>(f: &'b Flow, v: &'b V) -> V {
    // look through references to constants
    match f.deref_const(v) { Some(x) => strip(f, &x).clone(), None => v.clone() }
}

// ------------------------------------------------------------------------------------------------ T01
pub fn t01(dir: &str, r: &mut Report) {
    r.what = "Every cycle of the supergraph of every thread and entry point of the UDP node, the TCP node and the control listener that contains a blocking wait is cut by a branch on a fresh load of the running flag whose `false` side reaches no further wait; every wait has a finite constant timeout. In each of these and in the interrupt handler all flags that are loaded, stored, captured by a thread or handler or given to a function lead to one object, which starts as true; it is never stored anything but false, and the handler always stores that.".into();
    let (udp, node) = (load(dir, "vru_udp"), load(dir, "vru_node"));
    let mut waits = 0; let mut tests = 0; let mut nr = 0u64;
    let mut wait_sites = BTreeSet::new();
    for (p, e) in [(&udp, &udp_entry as &dyn Fn(&Func) -> bool), (&node, &tcp_entry)] {
        for o in flows(p, e, r) {
            let w: FxHashSet<usize> = o.nodes(&is_wait).into_iter().collect();
            waits += w.len() as u64;
            for i in &w { if o.f.has(*i, &is_poll) { wait_sites.insert(o.f.place_of(*i).1); } }
            // tests of the flag whose false side leaves the loop for good
            let mut good: FxHashSet<usize> = Default::default();
            for i in 0..o.f.n.len() {
                let outs: Vec<usize> = o.f.n[i].succ.iter().filter(|e| o.is_running_false(i, e)).map(|e| e.to).collect();
                if outs.is_empty() { continue }
                let seen = o.f.reach(&outs, &|_| false, &|_, _| false);
                if !seen.iter().any(|x| w.contains(x)) { good.insert(i); tests += 1 }
            }
            let comps = o.sccs(&|i| good.contains(&i), &|_, _| false);
            for i in &w {
                let bad = comps.iter().any(|c| c.contains(i));
                r.must("cycle through a wait tests the running flag", !bad, || key(&o.f, *i), || format!("{} can wait again and again without testing the running flag in between; the wait at {}", o.name, at(&o.f, *i)));
            }
            // a read that blocks comes after a notice that there is something to read
            let polls: FxHashSet<usize> = o.nodes(&is_poll).into_iter().collect();
            let stop = |x: usize| polls.contains(&x);
            let nonblocking = o.evs(&|f| f.krate == "std" && last(f) == "set_nonblocking").iter().any(|x| matches!(x.2.get(1), Some(V::Int(1))));
            let reads: Vec<_> = o.evs(&|f| is_wait(f) && !is_poll(f)).into_iter().map(|x| x.0).collect();
            if !nonblocking && !reads.is_empty() {
                let mut dry = o.f.reach(&[o.f.root], &stop, &|_, _| false);
                for i in &reads { dry.extend(o.f.reach(&o.succ(*i), &stop, &|_, _| false)) }
                for (i, g, _, _, res) in o.evs(&is_poll) { if let Some(s) = res { let _ = g; dry.extend(o.side(i, s, 1, &stop, &|_, _| false)) } }
                for i in reads {
                    r.must("a blocking read follows a notice", !dry.contains(&i), || key(&o.f, i), || format!("{} can come to the read at {} without a notice that there is something to read, and stay there", o.name, at(&o.f, i)));
                    nr += 1;
                }
            }
            for (i, g, a, d, _) in o.evs(&is_poll) {
                let fun = o.f.func(g);
                let dur = match (fun.krate.as_str(), last(fun)) {
                    ("popol", "wait_timeout") => d.get(2).map(|v| duration(&o, v)),
                    ("mio", "poll") => a.get(2).map(|v| match strip(&o.f, v) { V::Agg(x) if x.variant == 1 => x.fields.get(&0).and_then(|v| duration(&o, v)), _ => None }),
                    _ => None,
                };
                let ok = matches!(dur, Some(Some(n)) if n <= 3600);
                r.must("every wait has a finite timeout", ok, || key(&o.f, i), || format!("the wait at {} has no constant finite timeout", at(&o.f, i)));
            }
        }
    }
    route::flags(&udp, &node, r);
    let _ = nr;
    r.floor("blocking waits", waits, 3);
    r.floor("distinct poll sites", wait_sites.len() as u64, 3);
    r.floor("tests of the running flag", tests, 3);
    r.trusted = vec!["popol, mio and std return from a wait within the timeout".into(), "ctrlc runs its handler on an interrupt".into()];
}
/// seconds of a constant duration
fn duration(o: &One, v: &V) -> Option<u128> {
    match strip(&o.f, v) {
        V::Sym(s) => { let (g, a) = o.call_of(s)?; let Some(V::Int(n)) = a.first() else { return None }; Some(match last(g) { "from_secs" => *n, "from_millis" => n / 1000, "from_micros" | "from_nanos" => 0, "from_mins" => n * 60, _ => return None }) }
        V::Agg(a) => match a.fields.get(&0) { Some(V::Int(n)) => Some(*n), _ => None },
        _ => None,
    }
}

// ------------------------------------------------------------------------------------------------ T02
fn kind_value(p: &Program, name: &str) -> Option<u128> {
    p.tys.iter().find_map(|t| match &t.kind { TyKind::Adt { path, variants, .. } if path.ends_with("ErrorKind") && (path.contains("io")) => variants.iter().find(|v| v.name == name).map(|v| v.discr), _ => None })
}
/// edge that tells whether the error kind is `names`: Some(true) it is one of them, Some(false) it is none of them
fn kind_test(o: &One, i: usize, e: &Edge, names: &[&str]) -> Option<bool> {
    let p = o.f.p;
    let vals: Vec<u128> = names.iter().filter_map(|n| kind_value(p, n)).collect();
    let (s, x, listed) = o.cond(i, e)?;
    let is_kind = |s: SId| o.call_of(s).map(|c| last(c.0) == "kind").unwrap_or(false);
    match &o.f.s[s as usize] {
        // a call of PartialEq::eq / ne
        S::Call(_, _, g, a) if matches!(last(o.f.func(*g)), "eq" | "ne") => {
            let mut it = a.iter();
            let (a0, a1) = (it.next()?, it.next()?);
            let val = |v: &V| -> Option<V> { Some(match v { V::Ref(..) => o.deref_at(i, v), v => strip(&o.f, v) }) };
            let (v0, v1) = (val(a0), val(a1));
            let pick = |v: &Option<V>| match v { Some(V::Agg(a)) => kind_variant(p, a), _ => None };
            let k = pick(&v1).or_else(|| pick(&v0))?;
            let eq = (last(o.f.func(*g)) == "eq") == (x? == 1);
            if vals.contains(&k) { if eq || vals.len() == 1 { Some(eq) } else { None } } else { if eq { Some(false) } else { None } }
        }
        S::Bin(Bin::Eq, V::Sym(d), V::Int(c)) if matches!(o.f.s[*d as usize], S::Discr(k) if is_kind(k)) => if vals.contains(c) { Some(x? == 1) } else if x? == 1 { Some(false) } else { None },
        S::Discr(k) if is_kind(*k) => match x { Some(x) => Some(vals.contains(&x)), None => if vals.iter().all(|v| listed.contains(v)) { Some(false) } else { None } },
        _ => None,
    }
}
fn kind_variant(p: &Program, a: &Agg) -> Option<u128> { match &p.tys.get(a.ty as usize)?.kind { TyKind::Adt { path, variants, .. } if path.ends_with("ErrorKind") => variants.get(a.variant as usize).map(|v| v.discr), _ => None } }
impl<'a> One<'a> {
    fn deref_at(&self, i: usize, v: &V) -> V {
        match v { V::Ref(c, l, p) => { let mut x = self.f.n[i].st.env.get(&(*c, *l)).cloned().unwrap_or(V::Undef); for k in p.iter() { x = match &x { V::Agg(a) => a.fields.get(k).cloned().unwrap_or(V::Undef), _ => V::Undef } } x } v => strip(&self.f, v) }
    }
}
fn sends_event(o: &One, i: usize) -> bool { o.f.n[i].ev.iter().any(|e| matches!(e, Ev::Call { f, .. } if is_send(o.f.func(*f)) && o.f.func(*f).name.contains("Event"))) }

pub fn t02(dir: &str, r: &mut Report) {
    r.what = "In the TCP node's threads, after every successful accept each path comes to another accept before it polls again; when an accept fails because it would block no event is sent.".into();
    let node = load(dir, "vru_node");
    let mut n = 0; let mut oks = 0;
    for o in flows(&node, &tcp_entry, r) {
        let acc = o.evs(&is_accept_mio);
        if acc.is_empty() { continue }
        n += acc.len() as u64;
        let accs: FxHashSet<usize> = acc.iter().map(|a| a.0).collect();
        let polls: FxHashSet<usize> = o.nodes(&is_poll).into_iter().collect();
        // readiness leads to accept: from a poll there is a path to an accept
        for (i, _, _, _, res) in &acc {
            let Some(s) = *res else { continue };
            let ok = o.variant_edges(s, 0);
            oks += ok.len() as u64;
            let seen = o.side(*i, s, 0, &|x| accs.contains(&x) || polls.contains(&x), &|_, _| false);
            let bad = seen.iter().find(|x| polls.contains(x));
            r.must("accept again after a connection was accepted", bad.is_none(), || key(&o.f, *i), || format!("after a connection was accepted at {} the node waits for the next notification at {} without accepting the rest", at(&o.f, *i), bad.map(|b| at(&o.f, *b)).unwrap_or_default()));
            let seen = o.side(*i, s, 1, &|x| accs.contains(&x) || polls.contains(&x), &|j, e| kind_test(&o, j, e, &["WouldBlock"]) == Some(false));
            let bad = seen.iter().find(|x| sends_event(&o, **x));
            r.must("would-block is not reported", bad.is_none(), || key(&o.f, *i), || format!("an accept at {} that would block is reported as an error at {}", at(&o.f, *i), bad.map(|b| at(&o.f, *b)).unwrap_or_default()));
        }
    }
    r.floor("accept calls of the TCP node", n, 1);
    r.floor("tests for an accepted connection", oks, 1);
    r.trusted = vec!["mio delivers an edge when a connection arrives at an empty queue".into()];
}

// ------------------------------------------------------------------------------------------------ T03
fn net_op(f: &Func, p: &Program) -> bool {
    let n = last(f);
    if !matches!(f.krate.as_str(), "std" | "mio" | "popol") { return false }
    let r = &p.tys[f.ret as usize].name;
    r.starts_with("std::result::Result<") && r.ends_with("std::io::Error>")
        && (n.starts_with("connect") || n.starts_with("accept") || n.starts_with("wait") || n.starts_with("recv") || n.starts_with("send") || n.starts_with("read") || n.starts_with("write") || n.starts_with("peek") || matches!(n, "poll" | "bind"))
}
/// other functions on sockets that can fail: that may be passed over, but not end in a panic
fn aux_op(f: &Func, p: &Program) -> bool {
    if !matches!(f.krate.as_str(), "std" | "mio" | "popol") || net_op(f, p) { return false }
    let r = &p.tys[f.ret as usize].name;
    let sock = |t: TyId| { let n = &p.tys[t as usize].name; ["TcpStream", "TcpListener", "UdpSocket", "mio::Registry", "UnixStream", "UnixListener"].iter().any(|s| n.contains(s)) };
    r.starts_with("std::result::Result<") && r.ends_with("std::io::Error>") && f.args.first().map(|t| sock(*t)).unwrap_or(false)
}
pub fn t03(dir: &str, r: &mut Report) {
    r.what = "For each network operation of the UDP and TCP nodes (connect, accept, poll, receive, send, bind): from the error side of its result, up to the next operation, no panic is reachable and the error is sent as an event or returned, unless a test of its kind says that it is a timeout, interruption or would-block. The success side runs into no function that always panics.".into();
    let (udp, node) = (load(dir, "vru_udp"), load(dir, "vru_node"));
    let mut sites = BTreeSet::new();
    for (p, e) in [(&udp, &udp_entry as &dyn Fn(&Func) -> bool), (&node, &tcp_entry)] {
        for o in flows(p, e, r) {
            let ops: Vec<_> = o.evs(&|f| net_op(f, p)).into_iter().filter(|x| { let (f, _) = o.f.place_of(x.0); let k = &o.f.func(o.f.cx[o.f.n[x.0].cx as usize].f).krate; let _ = f; k == "vru_udp" || k == "vru_tcp" || k == "core" }).collect();
            let ops: Vec<_> = ops.into_iter().filter(|x| !o.f.place_of(x.0).0.contains("CommandListener") ).collect();
            let opn: FxHashSet<usize> = ops.iter().map(|x| x.0).collect();
            for (i, g, _, _, res) in o.evs(&|f| aux_op(f, p)) {
                let k = &o.f.func(o.f.cx[o.f.n[i].cx as usize].f).krate;
                let Some(s) = res else { continue };
                if !matches!(k.as_str(), "vru_udp" | "vru_tcp" | "core") || o.f.place_of(i).0.contains("CommandListener") { continue }
                let fine = |j: usize, e: &Edge| o.other_variant(j, e, s, 1);
                let seen = o.f.reach(&o.succ(i), &|x| opn.contains(&x), &fine);
                let mut bad: Vec<usize> = seen.iter().copied().filter(|x| !opn.contains(x) && panics(&o, *x).is_some()).collect();
                if !bad.is_empty() { let mut all: Vec<SId> = ops.iter().filter_map(|x| x.4).collect(); all.push(s); let locs = o.anyway(&all); bad.retain(|x| !locs.contains(&(o.f.n[*x].cx, o.f.n[*x].bb))) }
                r.must("a failing operation does not panic", bad.is_empty(), || format!("{}:{}", key(&o.f, i), last(o.f.func(g))), || format!("a failure of {} at {} can panic at {}: {}", last(o.f.func(g)), at(&o.f, i), at(&o.f, bad[0]), panics(&o, bad[0]).unwrap()));
            }
            for (i, g, _, _, res) in &ops {
                let nm = format!("{}:{}", key(&o.f, *i), last(o.f.func(*g)));
                sites.insert(nm.clone());
                let Some(s) = *res else { continue };
                // everything but the paths on which it is known to have succeeded
                let start = o.succ(*i);
                let fine = |j: usize, e: &Edge| o.other_variant(j, e, s, 1);
                let stop = |x: usize| opn.contains(&x);
                let quiet = |j: usize, e: &Edge| fine(j, e) || kind_test(&o, j, e, &["TimedOut", "Interrupted", "WouldBlock"]) == Some(true);
                // panics that do not happen as long as this operation does not fail
                let seen = o.f.reach(&start, &stop, &fine);
                let mut bad: Vec<usize> = seen.iter().copied().filter(|x| !opn.contains(x) && panics(&o, *x).is_some()).collect();
                if !bad.is_empty() {
                    let all: Vec<SId> = ops.iter().filter_map(|x| x.4).collect();
                    let locs = o.anyway(&all);
                    bad.retain(|x| !locs.contains(&(o.f.n[*x].cx, o.f.n[*x].bb)));
                }
                let bad = bad.first();
                r.must("a failing operation does not panic", bad.is_none(), || nm.clone(), || format!("a failure of {} at {} can panic at {}: {}", last(o.f.func(*g)), at(&o.f, *i), at(&o.f, *bad.unwrap()), panics(&o, *bad.unwrap()).unwrap()));
                // reported: without sending, neither the next operation nor the end is reached, except with an error result
                let told = |x: usize| sends_err(&o, x, s);
                let seen = o.f.reach(&start, &|x| stop(x) || told(x), &quiet);
                let bad = seen.iter().find(|x| !told(**x) && (opn.contains(x) || o.f.n[**x].ev.iter().any(|e| matches!(e, Ev::Return { v } if !is_err(v, &o, s)))));
                r.must("a failing operation is reported or returned", bad.is_none(), || nm.clone(), || format!("a failure of {} at {} is neither reported nor returned; execution continues at {}", last(o.f.func(*g)), at(&o.f, *i), at(&o.f, *bad.unwrap())));
                // the success side
                let seen = o.side(*i, s, 0, &stop, &|_, _| false);
                for x in seen { if opn.contains(&x) { continue } for e in &o.f.n[x].ev { if let Ev::Panic { what, .. } = e { if let Some(ws) = o.f.n[x].ev.iter().find_map(|e| match e { Ev::Call { f, .. } if is_ws(&o.f.func(*f).krate) && o.f.func(*f).path == *what => Some(norm(what)), _ => None }) {
                    r.must("a successful operation does not always panic", false, || ws.clone(), || format!("after {} at {} the function {ws} is called, which always panics", last(o.f.func(*g)), at(&o.f, *i)));
                } } } }
                r.ok("a successful operation does not always panic");
            }
        }
    }
    r.floor("network operations", sites.len() as u64, 8);
    r.notes.push(format!("operations: {}", sites.iter().cloned().collect::<Vec<_>>().join(", ")));
}
impl<'a> One<'a> {
    /// places at which something panics although none of these operations fails
    fn anyway(&self, ops: &[SId]) -> FxHashSet<(Cx, u32)> {
        let sites: FxHashSet<(Cx, u32)> = ops.iter().filter_map(|s| match &self.f.s[*s as usize] { S::Call(c, b, _, _) => Some((*c, *b)), _ => None }).collect();
        let here = |s: SId| matches!(&self.f.s[s as usize], S::Call(c, b, _, _) if sites.contains(&(*c, *b)));
        let r = self.f.reach(&[self.f.root], &|_| false, &|j, e| matches!(self.cond(j, e), Some((d, Some(1), _)) if matches!(self.f.s[d as usize], S::Discr(t) if here(t))));
        r.iter().filter(|x| panics(self, **x).is_some()).map(|x| (self.f.n[*x].cx, self.f.n[*x].bb)).collect()
    }
}
fn panics(o: &One, i: usize) -> Option<String> { o.f.n[i].ev.iter().find_map(|e| match e { Ev::Panic { what, .. } => Some(what.clone()), _ => None }) }
/// sends an event that carries (something about) the failure
fn sends_err(o: &One, i: usize, s: SId) -> bool {
    let _ = s;
    o.f.n[i].ev.iter().any(|e| match e { Ev::Call { f, args, .. } if is_send(o.f.func(*f)) && o.f.func(*f).name.contains("Event") => args.get(1).map(|v| is_error_event(o, v)).unwrap_or(false), _ => false })
}
fn is_error_event(o: &One, v: &V) -> bool {
    match v { V::Agg(a) => match o.f.p.tys.get(a.ty as usize).map(|t| &t.kind) { Some(TyKind::Adt { variants, .. }) => variants.get(a.variant as usize).map(|x| x.name.contains("Error")).unwrap_or(true), _ => true }, _ => true }
}
fn is_err(v: &V, o: &One, s: SId) -> bool { match v { V::Agg(a) => o.f.p.tys.get(a.ty as usize).map(|t| t.name.starts_with("std::result::Result") && a.variant == 1).unwrap_or(false), V::Sym(x) => *x == s || o.f.contains(*x, s), _ => false } }


// ------------------------------------------------------------------------------------------------ U01
/// the cell or lock behind the receiver of a borrow or lock call
fn cell(o: &One, v: &V) -> V {
    let mut v = v.clone();
    for _ in 0..16 {
        v = match &v {
            V::Sym(s) => match &o.f.s[*s as usize] {
                S::Un(9, x) => x.clone(),
                // clones and dereferences of shared pointers lead to the same cell
                S::Call(_, _, g, a) if !a.is_empty() && matches!(last(o.f.func(*g)), "clone" | "deref" | "deref_mut" | "as_ref" | "borrow") && !is_guard(o.f.func(*g)) => a[0].clone(),
                _ => return v,
            },
            _ => return v,
        }
    }
    v
}
pub fn u01(dir: &str, r: &mut Report) {
    r.what = "At every RefCell borrow and Mutex lock of the UDP node (entry points and threads) the guards held on the same call path are compared: none is of the same cell unless both are shared borrows; the order in which different locks are nested is acyclic over all threads; no lock is held at a thread join, channel receive or socket wait.".into();
    let udp = load(dir, "vru_udp");
    let mut order: BTreeMap<(String, String), String> = Default::default();
    let (mut cells, mut locks) = (0, 0);
    for o in flows(&udp, &udp_entry, r) {
        for (i, n) in o.f.n.iter().enumerate() {
            for e in &n.ev {
                let Ev::Call { f: g, args, held, .. } = e else { continue };
                let fun = o.f.func(*g);
                let locks_held: Vec<SId> = held.iter().copied().filter(|h| o.call_of(*h).map(|c| is_lock(c.0)).unwrap_or(false)).collect();
                if is_guard(fun) {
                    if is_lock(fun) { locks += 1 } else { cells += 1 }
                    let me = args.first().map(|v| cell(&o, v)).unwrap_or(V::Undef);
                    for h in held {
                        let Some((hf, ha)) = o.call_of(*h) else { continue };
                        let other = ha.first().map(|v| cell(&o, v)).unwrap_or(V::Undef);
                        let same = is_lock(hf) == is_lock(fun) && hf.targs == fun.targs && (me == other || me == V::Undef || other == V::Undef);
                        let shared = |f: &Func| matches!(last(f), "borrow" | "read");
                        let bad = same && !(shared(hf) && shared(fun) && !is_lock(fun));
                        r.must("no conflicting borrow or repeated lock", !bad, || key(&o.f, i), || format!("{} at {} while the same thread still holds {} of the same cell", last(fun), at(&o.f, i), last(hf)));
                        if is_lock(hf) && is_lock(fun) && !same { order.entry((norm2(hf), norm2(fun))).or_insert(at(&o.f, i)); }
                    }
                    r.ok("no conflicting borrow or repeated lock");
                } else if is_join(fun) || is_recv(fun) || is_wait(fun) || is_block(fun) {
                    r.must("no lock is held while waiting", locks_held.is_empty(), || key(&o.f, i), || format!("{} at {} while holding {}", last(fun), at(&o.f, i), locks_held.iter().map(|h| o.f.show(*h).chars().take(80).collect::<String>()).collect::<Vec<_>>().join(", ")));
                }
            }
        }
    }
    // cycles in the lock order
    let ks: BTreeSet<String> = order.keys().flat_map(|k| [k.0.clone(), k.1.clone()]).collect();
    for a in &ks {
        let mut seen = BTreeSet::new(); let mut w = vec![a.clone()];
        while let Some(x) = w.pop() { for (k, _) in &order { if k.0 == x && seen.insert(k.1.clone()) { w.push(k.1.clone()) } } }
        r.must("locks are nested in one order", !seen.contains(a), || a.clone(), || format!("locks are taken in both orders: {}", order.iter().map(|(k, v)| format!("{} then {} at {v}", k.0, k.1)).collect::<Vec<_>>().join("; ")));
    }
    r.floor("dynamic borrows and locks", cells + locks, 3);
    r.trusted = vec!["RefCell and Mutex semantics".into()];
}
fn norm2(f: &Func) -> String { f.name.replace("rac::generic_array::", "") }

// ------------------------------------------------------------------------------------------------ U02, U03
struct Worker { msg: TyId, spawn_targ: TyId, terminating: Vec<u32>, variants: Vec<String> }
/// message type of a channel end from the signature of its method
fn msg_ty(o: &One, g: FnId) -> Option<TyId> { o.f.func(g).targs.first().copied() }
/// Result: Ok is variant 0, Option: Some is variant 1
fn ok_variant(o: &One, g: FnId) -> u128 { o.f.p.tys[o.f.func(g).ret as usize].name.starts_with("std::option::Option") as u128 }
/// is the value what a receive call returned (its Ok or Some payload)?
fn is_msg(o: &One, s: SId, res: SId) -> bool { matches!(o.f.s[s as usize], S::Field(x, _, 0) if x == res) }
fn worker_of(o: &One, r: &mut Report, check: bool) -> Option<Worker> {
    let p = o.f.p;
    let recvs = o.evs(&is_any_recv);
    let recv_nodes: FxHashSet<usize> = recvs.iter().map(|x| x.0).collect();
    let mut w: Option<Worker> = None;
    for (i, g, _, _, res) in &recvs {
        let Some(res) = *res else { continue };
        let Some(m) = msg_ty(o, *g) else { continue };
        let TyKind::Adt { variants, kind, .. } = &p.tys[m as usize].kind else { continue };
        let nv = if *kind == AdtKind::Enum { variants.len() } else { 1 };
        let ok = ok_variant(o, *g);
        let w = w.get_or_insert(Worker { msg: m, spawn_targ: 0, terminating: vec![], variants: variants.iter().map(|v| v.name.clone()).collect() });
        for k in 0..nv {
            let d = variants[k].discr;
            let cut = |j: usize, e: &Edge| {
                if o.is_running_false(j, e) { return true }
                match o.cond(j, e) { Some((s, x, listed)) => match &o.f.s[s as usize] { S::Discr(t) if is_msg(o, *t, res) => match x { Some(x) => x != d, None => listed.contains(&d) }, _ => false }, _ => false }
            };
            let seen = o.side(*i, res, ok, &|x| recv_nodes.contains(&x), &cut);
            if seen.iter().any(|x| o.returns(*x)) && !w.terminating.contains(&(k as u32)) { w.terminating.push(k as u32) }
            if check {
                let bad = seen.iter().find(|x| !recv_nodes.contains(x) && panics(o, **x).is_some());
                r.must("handling a message does not panic", bad.is_none(), || format!("{}:{}", key(&o.f, *i), variants[k].name), || format!("handling {} received at {} can panic at {}: {}", variants[k].name, at(&o.f, *i), at(&o.f, *bad.unwrap()), panics(o, *bad.unwrap()).unwrap()));
            }
        }
    }
    w
}
/// sends of message type m: (node, value)
fn sends_of<'b>(o: &'b One, m: TyId) -> Vec<(usize, &'b V)> {
    o.evs(&is_send).into_iter().filter(|x| o.f.func(x.1).targs.first() == Some(&m)).filter_map(|x| x.2.get(1).map(|v| (x.0, v))).collect()
}
fn sends_variant(v: &V, t: &[u32]) -> bool { match v { V::Agg(a) if a.variant != u32::MAX => t.contains(&a.variant), _ => !t.is_empty() } }
fn surely_sends(v: &V, t: &[u32]) -> bool { match v { V::Agg(a) => t.contains(&a.variant), _ => false } }

pub fn u02(dir: &str, r: &mut Report) {
    r.what = "For the message loop of every worker thread of the UDP node: for each variant of the message type, the paths from its reception lead to the next receive, not to the end of the thread or a panic; a variant that does end the worker is sent only where the sender goes on to join the worker and never waits for the network again.".into();
    let udp = load(dir, "vru_udp");
    let fl = flows(&udp, &udp_entry, r);
    let mut n = 0; let mut kinds = 0;
    for o in &fl {
        if o.kind != Kind::Thread { continue }
        let Some(w) = worker_of(o, r, true) else { continue };
        n += 1; kinds += w.variants.len() as u64;
        r.add("message kind is served", w.variants.len() as u64);
        for s in &fl {
            let waits: FxHashSet<usize> = s.nodes(&is_wait).into_iter().collect();
            for (i, v) in sends_of(s, w.msg) {
                if !sends_variant(v, &w.terminating) { r.ok("message kind does not end the worker"); continue }
                let after = s.f.reach(&s.succ(i), &|_| false, &|_, _| false);
                let waits_again = after.iter().any(|x| waits.contains(x));
                let joins = after.iter().any(|x| s.f.has(*x, &is_join));
                let names: Vec<&str> = w.terminating.iter().map(|k| w.variants[*k as usize].as_str()).collect();
                r.must("message kind does not end the worker", joins && !waits_again, || format!("{}:{}", key(&s.f, i), match v { V::Agg(a) if (a.variant as usize) < w.variants.len() => w.variants[a.variant as usize].clone(), _ => "unknown".into() }), || format!("the message sent at {} ends its worker ({} ends after {}) although the node keeps running", at(&s.f, i), norm(&o.name), names.join(", ")));
            }
        }
    }
    r.floor("worker threads with a message loop", n, 1);
    r.floor("message kinds", kinds, 2);
}
pub fn u03(dir: &str, r: &mut Report) {
    r.what = "Every join of a worker thread is preceded, on each path and each iteration, by sending it a message that ends it; where there is no such message, nobody else keeps a sender of its channel and the joiner's own sender is dropped first. The running flag test of the main thread (T01) bounds the join of the main thread.".into();
    let udp = load(dir, "vru_udp");
    let fl = flows(&udp, &udp_entry, r);
    let mut workers = vec![];
    for o in &fl {
        if o.kind != Kind::Thread { continue }
        let w = worker_of(o, r, false);
        // a bounded channel, a condition or a channel of its own: the joiner may be the one to act
        let mut calm = 0;
        for (i, g, _, _, _) in o.evs(&|_| true) {
            let f = o.f.func(g);
            let other = is_recv(f) && last(f) != "recv_timeout" && f.targs.first().copied() != w.as_ref().map(|w| w.msg);
            calm += 1;
            if is_block(f) || other { r.must("a joined thread waits for nobody else", false, || key(&o.f, i), || format!("the thread {} waits at {} for another thread to act, which may be the one that joins it", o.name, at(&o.f, i))) }
        }
        r.add("a joined thread waits for nobody else", calm);
        let Some(w) = w else { continue };
        // who holds the handle of this worker: types with a field that receives the result of its spawn
        let body = o.f.cx[0].f;
        let mut owners: Vec<(TyId, u32)> = vec![];
        let mut holders: BTreeSet<String> = Default::default();
        for s in &fl {
            for (i, g, _, _, res) in s.evs(&is_spawn) {
                let _ = i;
                if !s.f.func(g).targs.iter().any(|t| closure_body(&udp, *t) == Some(body)) { continue }
                let Some(res) = res else { continue };
                for n in &s.f.n { for e in &n.ev { if let Ev::Make { ty, fields, .. } = e { for (k, v) in fields.iter().enumerate() { if let V::Sym(x) = v { if s.f.contains(*x, res) && !owners.contains(&(*ty, k as u32)) { owners.push((*ty, k as u32)) } } } } } }
            }
        }
        for t in &udp.tys { if let TyKind::Adt { krate, variants, path, .. } = &t.kind { if krate == "vru_udp" { for v in variants { for (_, ft) in &v.fields { let nm = &udp.tys[*ft as usize].name; if nm.contains("mpsc::Sender<") && nm.contains(udp.tys[w.msg as usize].name.as_str()) { holders.insert(path.clone()); } } } } } }
        workers.push((w, owners, holders, o.name.clone()));
    }
    let mut joins = 0;
    for s in &fl {
        let js: Vec<_> = s.evs(&is_join);
        for (i, _, a, _, _) in &js {
            let owner = join_owner(s, *i);
            for (w, owners, holders, wname) in &workers {
                // a handle of another thread
                if let (Some(t), true) = (owner, !owners.is_empty()) { if !owners.iter().any(|o| o.0 == t) { continue } }
                else if let Some(V::Sym(x)) = a.first() { if let Some(sp) = s.f.subterms(*x).iter().chain([x]).find_map(|y| s.call_of(*y).filter(|c| is_spawn(c.0))) { if !sp.0.targs.iter().any(|t| *t == w.spawn_targ) && !sp.0.targs.iter().filter_map(|t| closure_body(&udp, *t)).any(|b| udp.fns[b as usize].path == *wname) { continue } } }
                joins += 1;
                let jn: FxHashSet<usize> = js.iter().map(|x| x.0).collect();
                if !w.terminating.is_empty() {
                    let tn: FxHashSet<usize> = sends_of(s, w.msg).into_iter().filter(|x| surely_sends(x.1, &w.terminating)).map(|x| x.0).collect();
                    let mut from = vec![s.f.root];
                    for j in &jn { from.extend(s.succ(*j)) }
                    let seen = s.f.reach(&from, &|x| tn.contains(&x), &|_, _| false);
                    let mut ok = !seen.contains(i) && *i != s.f.root;
                    if !ok {
                        // a loop that ends every worker comes before the loop that joins them
                        for c in s.sccs(&|_| false, &|_, _| false) {
                            if c.contains(i) || !c.iter().any(|x| tn.contains(x)) { continue }
                            let cs: FxHashSet<usize> = c.iter().copied().collect();
                            let before = s.f.reach(&[s.f.root], &|x| cs.contains(&x), &|_, _| false);
                            let inner: bool = s.sccs(&|x| !cs.contains(&x) || tn.contains(&x), &|_, _| false).is_empty();
                            if !before.contains(i) && inner { ok = true }
                        }
                    }
                    r.must("a worker is told to end before it is joined", ok, || key(&s.f, *i), || format!("the worker {} can be joined at {} without having been told to end; other holders of its channel ({}) keep it waiting", norm(wname), at(&s.f, *i), holders.iter().cloned().collect::<Vec<_>>().join(", ")));
                } else {
                    let others: Vec<&String> = holders.iter().filter(|h| owner.map(|t| !matches!(&udp.tys[t as usize].kind, TyKind::Adt { path, .. } if path == *h)).unwrap_or(true)).collect();
                    let mine = holders.len() != others.len();
                    let drops: FxHashSet<usize> = (0..s.f.n.len()).filter(|x| s.f.n[*x].ev.iter().any(|e| matches!(e, Ev::Drop { ty, .. } if udp.tys[*ty as usize].name.contains("mpsc::Sender<") && udp.tys[*ty as usize].name.contains(udp.tys[w.msg as usize].name.as_str())))).collect();
                    let mut from = vec![s.f.root];
                    for j in &jn { from.extend(s.succ(*j)) }
                    let seen = s.f.reach(&from, &|x| drops.contains(&x), &|_, _| false);
                    r.must("no sender of the worker outlives its join", others.is_empty() && (!mine || !seen.contains(i)), || key(&s.f, *i), || format!("the worker {} ends only when all senders are gone, but at the join at {} senders are kept by {}", norm(wname), at(&s.f, *i), holders.iter().cloned().collect::<Vec<_>>().join(", ")));
                }
            }
        }
    }
    r.floor("worker threads with a message loop", workers.len() as u64, 1);
    r.floor("joins of workers", joins, 1);
}
/// type that owned the joined handle
fn join_owner(o: &One, i: usize) -> Option<TyId> {
    let n = &o.f.n[i];
    let b = o.f.func(o.f.cx[n.cx as usize].f).body.as_ref()?;
    let Term::Call { args, .. } = &b.blocks[n.bb as usize].term else { return None };
    let Some(Operand::Move(p) | Operand::Copy(p)) = args.first() else { return None };
    let mut p = p.clone();
    for _ in 0..8 {
        if let Some(Proj::Field(..)) = p.proj.last() {
            // type of the base
            let mut t = b.locals[p.local];
            for e in &p.proj[..p.proj.len() - 1] {
                t = match (e, &o.f.p.tys[t as usize].kind) { (Proj::Deref, TyKind::Ref(x, _) | TyKind::Ptr(x, _)) => *x, (Proj::Field(_, x), _) => *x, (Proj::Downcast(_), _) => t, _ => return None };
            }
            return Some(t)
        }
        if !p.proj.is_empty() { return None }
        let mut src = None;
        for bl in &b.blocks { for (s, _) in &bl.stmts { if let Stmt::Assign(d, Rvalue::Use(Operand::Move(q) | Operand::Copy(q))) = s { if d.local == p.local && d.proj.is_empty() { src = Some(q.clone()) } } } }
        p = src?;
    }
    None
}

// ------------------------------------------------------------------------------------------------ U04, U05
fn frame_size(p: &Program) -> Option<u64> {
    p.tys.iter().find_map(|t| match &t.kind { TyKind::Adt { krate, path, variants, .. } if krate == "vru_udp" && path.ends_with("Datagram") => variants[0].fields.iter().find_map(|f| match p.tys[f.1 as usize].kind { TyKind::Array(_, n) => Some(n), _ => None }), _ => None })
}
impl<'a> One<'a> {
    /// layers of writes to a byte buffer: what each range holds, first to last
    fn layers(&self, v: &V, len: u64) -> Vec<(u64, u64, V)> { self.sources(v, len).into_iter().map(|x| (x.0, x.1, x.2)).collect() }
    /// the same with the place in the source
    fn sources(&self, v: &V, len: u64) -> Vec<(u64, u64, V, u64)> {
        let mut out = vec![];
        self.layer(v, 0, 0, len, &mut out);
        out.sort_by_key(|x| x.0);
        out
    }
    /// bytes x..y of v, to be placed at `at`, where nothing newer is
    fn layer(&self, v: &V, at: u64, x: u64, y: u64, out: &mut Vec<(u64, u64, V, u64)>) {
        if x >= y { return }
        match v {
            V::Agg(a) if a.fields.len() == 1 && a.fields.contains_key(&0) => self.layer(&a.fields[&0], at, x, y, out),
            V::Sym(s) => match &self.f.s[*s as usize] {
                S::Upd(old, a, b, n) => {
                    let (a, b) = ((*a).clamp(x, y), (*b).clamp(x, y));
                    let S::Upd(_, a0, ..) = &self.f.s[*s as usize] else { return };
                    if a < b {
                        // a new value that is known to be longer or shorter than the range is cut by the copy itself
                        self.layer(n, at + (a - x), a - a0, b - a0, out);
                        self.layer(old, at, x, a, out);
                        self.layer(old, at + (b - x), b, y, out);
                    } else { self.layer(old, at, x, y, out) }
                }
                S::Part(w, a, _) => self.layer(w, at, x + a, y + a, out),
                _ => out.push((at, at + (y - x), v.clone(), x)),
            },
            _ => out.push((at, at + (y - x), v.clone(), x)),
        }
    }
    /// the call that produced an `Out`
    fn out_call(&self, s: SId) -> Option<(usize, &'a Func, Vec<V>, Vec<V>)> {
        let S::Out(c, b, g, _) = self.f.s[s as usize] else { return None };
        for (i, n) in self.f.n.iter().enumerate() {
            if n.cx != c || n.bb != b { continue }
            for e in &n.ev { if let Ev::Call { f, args, derefs, .. } = e { if *f == g { return Some((i, self.f.func(g), args.clone(), derefs.clone())) } } }
        }
        None
    }
}
fn is_fill(o: &One, f: &Func, args: &[V]) -> bool {
    let _ = args;
    matches!(last(f), "fill" | "fill_bytes" | "try_fill" | "try_fill_bytes") && f.krate.starts_with("rand") && f.args.first().map(|t| secure_rng(&o.f.p.tys[*t as usize].name)).unwrap_or(false)
}
fn secure_rng(n: &str) -> bool { n.contains("ThreadRng") || n.contains("OsRng") }
/// the calls of a secure generator that made the value, if they made all of it
fn random_value(o: &One, v: &V, len: u64) -> Option<BTreeSet<(Cx, u32)>> {
    let mut w = BTreeSet::new();
    for (_, _, v) in o.layers(v, len) {
        let V::Sym(s) = v else { return None };
        match &o.f.s[s as usize] {
            S::Out(c, b, g, _) => { let f = o.f.func(*g); let (_, _, a, _) = o.out_call(s)?; if !is_fill(o, f, &a) { return None } w.insert((*c, *b)); }
            S::Call(c, b, g, _) => { let f = o.f.func(*g); if !(f.krate.starts_with("rand") && matches!(last(f), "gen" | "random") && (last(f) == "random" || f.args.first().map(|t| secure_rng(&o.f.p.tys[*t as usize].name)).unwrap_or(false))) { return None } w.insert((*c, *b)); }
            _ => return None,
        }
    }
    if w.is_empty() { None } else { Some(w) }
}
fn is_out0(f: &Func) -> bool { f.krate == "vru_session" && last(f) == "out0" }
fn is_gen(f: &Func) -> bool { f.krate == "vru_session" && last(f) == "gen" && f.path.contains("PublicKey") }
pub fn u04(dir: &str, r: &mut Report) {
    r.what = "In the UDP main loop: the receive buffer is longer than a frame, and every call that processes a received datagram (table lookups, locks, messages to workers, replies) lies behind tests that bound the received length to exactly the frame size. The buffer given to the first send of a dialled peer consists of the complete message returned by xx::out0 for the identity stored for that address, followed by bytes written by a secure generator up to its end.".into();
    let udp = load(dir, "vru_udp");
    let size = frame_size(&udp);
    r.floor("frame type", size.is_some() as u64, 1);
    let size = size.unwrap_or(0);
    let (mut nr, mut np, mut ns) = (0, 0, 0);
    for o in flows(&udp, &udp_entry, r) {
        let waits: FxHashSet<usize> = o.nodes(&is_wait).into_iter().collect();
        for (i, _, a, _, res) in o.evs(&|f| is(f, "UdpSocket", "recv_from")) {
            let Some(res) = res else { continue };
            nr += 1;
            let n = a.get(1).and_then(|v| o.f.mem_len(v));
            r.must("a longer datagram is noticed", n.map(|n| n > size).unwrap_or(false), || key(&o.f, i), || format!("the buffer given to recv_from at {} has {} bytes, so a datagram longer than the frame of {size} bytes is cut to a frame", at(&o.f, i), n.map(|n| n.to_string()).unwrap_or("an unknown number of".into())));
            let seen = o.side(i, res, 0, &|x| waits.contains(&x), &|j, e| o.is_running_false(j, e));
            // the length is the first part of the pair
            let len = |s: SId| match o.f.s[s as usize] { S::Field(x, _, 0) => matches!(o.f.s[x as usize], S::Field(y, _, 0) if y == res), _ => false };
            for x in seen {
                if waits.contains(&x) { continue }
                for e in &o.f.n[x].ev {
                    let Ev::Call { f, .. } = e else { continue };
                    let g = o.f.func(*f);
                    let work = g.path.contains("HashMap") && matches!(last(g), "get" | "get_mut" | "insert" | "remove" | "contains_key" | "entry") || is_lock(g) || (is_send(g) && !g.name.contains("Event")) || is(g, "UdpSocket", "send_to") || is_out0(g);
                    if !work { continue }
                    np += 1;
                    let exact = o.f.n[x].st.facts.iter().any(|(s, f)| len(*s) && f.lo == f.hi && f.lo == size as u128);
                    r.must("only whole frames are processed", exact, || format!("{}:{}", key(&o.f, x), last(g)), || format!("{} at {} is reached for a datagram whose length is not known to be the frame size", last(g), at(&o.f, x)));
                }
            }
        }
        for (i, _, a, d, _) in o.evs(&|f| is(f, "UdpSocket", "send_to") || is(f, "UdpSocket", "send")) {
            // is there an opening message on the way to this datagram?
            let buf = d.get(1).cloned().unwrap_or(V::Undef);
            let total = a.get(1).and_then(|v| o.f.mem_len(v)).unwrap_or(0);
            let ly = o.layers(&buf, total);
            ns += 1;
            let name = |v: &V| match v { V::Sym(s) => o.out_call(*s).map(|c| last(c.1).to_string()).or_else(|| o.call_of(*s).map(|c| last(c.0).to_string())), _ => None }.unwrap_or("initial content".into());
            let desc = ly.iter().map(|(a, b, v)| format!("{a}..{b}: {}", name(v))).collect::<Vec<_>>().join(", ");
            // the message: a copy of clone_line(out0(..).1)
            let mut msg = None;
            for (x, y, v) in &ly {
                let V::Sym(s) = v else { continue };
                let Some((lf, la)) = o.call_of(*s).filter(|c| matches!(last(c.0), "clone_line" | "clone_array")) else { continue };
                let need = udp.tys[lf.ret as usize].size;
                let of = la.first().map(|v| match v { V::Ref(..) => line_arg(&o, lf, la.clone()), v => v.clone() }).unwrap_or(V::Undef);
                let o0 = o.f.syms_of(&of).into_iter().find(|s| o.call_of(*s).map(|c| is_out0(c.0)).unwrap_or(false));
                let Some(o0) = o0 else { continue };
                let whole = ly.iter().filter(|l| l.2 == *v).count() == 1;
                msg = Some((*x, *y, need, o0, whole));
            }
            let Some((x, y, need, o0, whole)) = msg else { r.must("the first datagram carries the opening message", false, || key(&o.f, i), || format!("the datagram sent at {} does not contain the opening message ({desc})", at(&o.f, i))); continue };
            r.must("the first datagram carries the opening message", x == 0 && need == Some(y - x) && whole, || key(&o.f, i), || format!("the datagram sent at {} has the opening message of {} bytes in {x}..{y} ({desc})", at(&o.f, i), need.unwrap_or(0)));
            r.must("the first datagram is a whole frame", total == size, || key(&o.f, i), || format!("the datagram sent at {} has {total} bytes instead of {size}", at(&o.f, i)));
            let rest = ly.iter().filter(|l| l.0 >= y).all(|l| random_value(&o, &l.2, 1).is_some());
            r.must("the rest of the first datagram is random", rest, || key(&o.f, i), || format!("the datagram sent at {} is not filled up with randomness ({desc})", at(&o.f, i)));
            // for that peer: the identity removed for the address it is sent to
            let mut peer = false;
            for (_, _, oa, od, ores) in o.evs(&is_out0) {
                if ores != Some(o0) { continue }
                let _ = oa;
                for s in od.get(1).map(|v| o.f.syms_of(v)).unwrap_or_default() {
                    let Some((g, _)) = o.call_of(s) else { continue };
                    if !(g.path.contains("HashMap") && matches!(last(g), "remove" | "get" | "remove_entry")) { continue }
                    for (_, _, _, rd, rres) in o.evs(&|f| std::ptr::eq(f, g)) { if rres == Some(s) && rd.get(1) == d.get(2) && rd.get(1).is_some() && rd.get(1) != Some(&V::Undef) { peer = true } }
                }
            }
            r.must("the opening message is made for the dialled peer", peer, || key(&o.f, i), || format!("the message sent at {} is not made for the identity stored for the destination address", at(&o.f, i)));
        }
    }
    r.floor("receives", nr, 1);
    r.floor("processing calls", np, 3);
    r.floor("sends", ns, 1);
}
/// contents of the first argument of a recorded call
fn line_arg(o: &One, g: &Func, a: Vec<V>) -> V { for (_, _, args, d, _) in o.evs(&|f| std::ptr::eq(f, g)) { if *args == a { return d[0].clone() } } V::Undef }

pub fn u05(dir: &str, r: &mut Report) {
    r.what = "At every call in the node crates that starts a handshake (xx::out0) or derives the long-term key (PublicKey::gen), the seed argument is traced to its writer: its whole content was written by one call of a secure generator (or, for the key, read from the database), and that call lies between any two uses.".into();
    let (udp, node) = (load(dir, "vru_udp"), load(dir, "vru_node"));
    let (mut n0, mut n1) = (0, 0);
    for (p, e) in [(&udp, &udp_entry as &dyn Fn(&Func) -> bool), (&node, &tcp_entry)] {
        for o in flows(p, e, r) {
            let uses = o.evs(&|f| f.krate == "vru_session" && f.path.contains("handshake") && (matches!(last(f), "out0" | "take0_out1" | "take1_out2" | "gen")) && f.args.first().is_some() && seed_arg(p, f));
            for (i, g, _, d, _) in &uses {
                let f = o.f.func(*g);
                if is_gen(f) { n1 += 1 } else { n0 += 1 }
                let v = d.first().cloned().unwrap_or(V::Undef);
                let stored = is_gen(f) && stored_value(&o, &v).is_some();
                let len = seed_len(p, f);
                let w = random_value(&o, &v, len);
                r.must("the seed is wholly random", stored || w.is_some(), || format!("{}:{}", key(&o.f, *i), last(f)), || format!("the seed given to {} at {} is not entirely written by a secure generator: {}", last(f), at(&o.f, *i), o.f.show_v(&v).chars().take(200).collect::<String>()));
                let Some(w) = w else { continue };
                let again = w.iter().find_map(|w| {
                    let seen = o.f.reach(&o.succ(*i), &|x| (o.f.n[x].cx, o.f.n[x].bb) == *w, &|_, _| false);
                    uses.iter().find(|u| seen.contains(&u.0) && (o.f.n[u.0].cx, o.f.n[u.0].bb) != *w && u.3.first().and_then(|x| random_value(&o, x, len)).map(|x| x.contains(w)).unwrap_or(false))
                });
                r.must("the seed is used once", again.is_none(), || format!("{}:{}", key(&o.f, *i), last(f)), || format!("the seed used at {} is used again at {}", at(&o.f, *i), at(&o.f, again.unwrap().0)));
            }
        }
    }
    r.floor("handshakes started", n0, 1);
    r.floor("keys derived", n1, 1);
    r.trusted = vec!["rand::ThreadRng and OsRng fill the whole slice with cryptographic randomness".into()];
}
fn seed_arg(p: &Program, f: &Func) -> bool { let n = &p.tys[f.args[0] as usize].name; n.starts_with('&') && n.contains("GenericArray<u8") }
fn seed_len(p: &Program, f: &Func) -> u64 { match &p.tys[f.args[0] as usize].kind { TyKind::Ref(t, _) => p.tys[*t as usize].size.unwrap_or(0), _ => 0 } }
/// the value is the whole of what a database read returned: the result of the read
fn stored_value(o: &One, v: &V) -> Option<SId> {
    let V::Sym(mut s) = v else { return None };
    let mut fields = 0;
    loop { match &o.f.s[s as usize] { S::Field(x, ..) => { s = *x; fields += 1 } S::Deref(x) => s = *x, S::Call(_, _, g, _) if o.f.func(*g).krate == "sled" && last(o.f.func(*g)) == "get" => return if fields >= 2 { Some(s) } else { None }, _ => return None } }
}

// ------------------------------------------------------------------------------------------------ D01
pub fn d01(dir: &str, r: &mut Report) {
    r.what = "In the node's start-up flow, every path from the database lookup to the derivation of the key pair either uses the stored seed unchanged and stores nothing, or stores the fresh seed under the same key and flushes, both successfully, and derives from exactly that seed; failed lookups, inserts or flushes lead to no derivation.".into();
    let node = load(dir, "vru_node");
    let (mut gets, mut gens) = (0, 0);
    let db = |n: &'static str| move |f: &Func| f.krate == "sled" && last(f) == n;
    for o in flows(&node, &|f| f.krate == "vru_node" && f.path == "main", r) {
        let get = o.evs(&db("get"));
        let ins = o.evs(&db("insert"));
        let flu = o.evs(&db("flush"));
        let gen = o.evs(&is_gen);
        gens += gen.len() as u64;
        let gn: FxHashSet<usize> = gen.iter().map(|x| x.0).collect();
        let insn: FxHashSet<usize> = ins.iter().map(|x| x.0).collect();
        // every derivation comes after a lookup
        let getn: FxHashSet<usize> = get.iter().map(|x| x.0).collect();
        let seen = o.f.reach(&[o.f.root], &|x| getn.contains(&x), &|_, _| false);
        r.must("the database is consulted before a key is made", !seen.iter().any(|x| gn.contains(x) || insn.contains(x)), || "main".into(), || "a key is derived or stored without looking for a stored seed".into());
        let edges = |evs: &Vec<(usize, FnId, &Vec<V>, &Vec<V>, Option<SId>)>, x: u128| -> FxHashSet<(usize, usize)> {
            let mut s = FxHashSet::default();
            for (i, n) in o.f.n.iter().enumerate() { for e in &n.succ { if let Some((d, Some(y), _)) = o.cond(i, e) { if y == x && evs.iter().any(|v| matches!((&o.f.s[d as usize], v.4), (S::Discr(t), Some(r)) if *t == r)) { s.insert((i, e.to)); } } } }
            s
        };
        for (i, _, a, _, res) in &get {
            gets += 1;
            let Some(res) = *res else { continue };
            let seen = o.side(*i, res, 1, &|x| getn.contains(&x), &|_, _| false);
            r.must("a failed lookup leads to no key", !seen.iter().any(|x| gn.contains(x) || insn.contains(x)), || key(&o.f, *i), || format!("after a failed lookup at {} a key is derived or stored", at(&o.f, *i)));
            // the option inside
            let mut some = vec![]; let mut none = vec![];
            for (j, n) in o.f.n.iter().enumerate() { for e in &n.succ { if let Some((d, x, listed)) = o.cond(j, e) { if let S::Discr(t) = o.f.s[d as usize] { if matches!(o.f.s[t as usize], S::Field(y, _, 0) if y == res) { let x = x.or(if listed.len() == 1 && listed[0] < 2 { Some(1 - listed[0]) } else { None }); match x { Some(1) => some.push(e.to), Some(0) => none.push(e.to), _ => {} } } } } } }
            r.must("the lookup distinguishes a stored seed", !some.is_empty() && !none.is_empty(), || key(&o.f, *i), || format!("the result of the lookup at {} is not tested for a stored seed", at(&o.f, *i)));
            let seen = o.f.reach(&some, &|x| getn.contains(&x), &|_, _| false);
            r.must("a stored seed is never overwritten", !seen.iter().any(|x| insn.contains(x)), || key(&o.f, *i), || format!("the seed found at {} may be overwritten", at(&o.f, *i)));
            r.must("a stored seed yields the key", seen.iter().any(|x| gn.contains(x)), || key(&o.f, *i), || format!("no key is derived from the seed found at {}", at(&o.f, *i)));
            for (j, _, _, d, _) in &gen {
                if !seen.contains(j) { continue }
                let v = d.first().cloned().unwrap_or(V::Undef);
                // the buffer as a whole is the stored one in states reached only from here
                if o.f.reach(&none, &|x| getn.contains(&x), &|_, _| false).contains(j) { r.must("the stored seed is used unchanged", false, || key(&o.f, *j), || format!("the derivation at {} does not distinguish the stored seed", at(&o.f, *j))); continue }
                let whole = stored_value(&o, &v) == Some(res);
                r.must("the stored seed is used unchanged", whole, || key(&o.f, *j), || format!("the key derived at {} is not made from the unchanged stored seed: {}", at(&o.f, *j), o.f.show_v(&v).chars().take(160).collect::<String>()));
            }
            // absent: insert, flush, then derive
            let ok_i = edges(&ins, 0); let ok_f = edges(&flu, 0);
            let s1 = o.f.reach(&none, &|x| getn.contains(&x), &|j, e| ok_i.contains(&(j, e.to)));
            r.must("a fresh seed is stored before use", !s1.iter().any(|x| gn.contains(x)), || key(&o.f, *i), || format!("a key is derived at {} from a fresh seed that was not stored successfully", s1.iter().find(|x| gn.contains(x)).map(|x| at(&o.f, *x)).unwrap_or_default()));
            let after: Vec<usize> = ok_i.iter().map(|x| x.1).collect();
            let s2 = o.f.reach(&after, &|x| getn.contains(&x), &|j, e| ok_f.contains(&(j, e.to)));
            r.must("a fresh seed is flushed before use", !s2.iter().any(|x| gn.contains(x)), || key(&o.f, *i), || format!("a key is derived at {} from a fresh seed that may not be on disk", s2.iter().find(|x| gn.contains(x)).map(|x| at(&o.f, *x)).unwrap_or_default()));
            for (j, _, ia, id, _) in &ins {
                let same = { let k = |v: Option<&V>| v.map(|v| o.f.show_v(v)); k(a.get(1)) == k(ia.get(1)) && matches!(const_key(&o, a.get(1)), Some(_)) };
                r.must("the seed is stored where it is looked up", same, || key(&o.f, *j), || format!("the seed is stored at {} under another key than it is looked up at {}", at(&o.f, *j), at(&o.f, *i)));
                // what is stored is what is used
                let fresh = o.f.reach(&o.succ(*j), &|x| getn.contains(&x), &|_, _| false);
                for (m, _, ga, gd, _) in &gen {
                    if !fresh.contains(m) { continue }
                    let same = id.get(2).is_some() && id.get(2) == gd.first() && id.get(2) != Some(&V::Undef);
                    let whole = ia.get(2).map(|v| o.f.root(v).map(|x| x.3.is_none()).unwrap_or(false)).unwrap_or(false) && ga.first().map(|v| o.f.root(v).map(|x| x.3.is_none()).unwrap_or(false)).unwrap_or(false);
                    r.must("the stored seed is the one used", same && whole, || key(&o.f, *m), || format!("the key derived at {} is not made from exactly the bytes stored at {}: {} / {}", at(&o.f, *m), at(&o.f, *j), gd.first().map(|v| o.f.show_v(v)).unwrap_or_default(), id.get(2).map(|v| o.f.show_v(v)).unwrap_or_default()));
                }
            }
        }
        // the node runs with this key pair only
        for (i, _, a, _, _) in o.evs(&|f| f.krate.starts_with("vru_") && last(f) == "spawn" && f.path.contains("Node<")) {
            let ok = a.iter().take(2).all(|v| o.f.syms_of(v).iter().any(|s| gen.iter().any(|g| g.4 == Some(*s))));
            r.must("the node runs with the stored key pair", ok, || key(&o.f, i), || format!("the node is started at {} with a key pair that is not derived from the stored seed", at(&o.f, i)));
        }
    }
    r.floor("database lookups", gets, 1);
    r.floor("key derivations", gens, 1);
    r.trusted = vec!["sled: flush returns after inserted data is durable".into()];
}
fn const_key(o: &One, v: Option<&V>) -> Option<String> { match v? { V::Str(s) => Some(s.to_string()), V::Sym(s) => match &o.f.s[*s as usize] { S::Un(9, V::Str(s)) => Some(s.to_string()), S::Unsize(v, _) => const_key(o, Some(v)), S::Un(9, v) => Some(o.f.show_v(v)), _ => None }, _ => None } }

// ------------------------------------------------------------------------------------------------ C01, C02
pub fn c01(dir: &str, r: &mut Report) {
    r.what = "The type that the client serialises to the control socket is the type that the node deserialises from it, both with bincode's top-level functions (same settings); both name the same socket file; for each client subcommand every path to the send builds the command variant of that meaning from the subcommand's own arguments.".into();
    let (node, client) = (load(dir, "vru_node"), load(dir, "client"));
    let nf = flows(&node, &|f| f.krate == "vru_node" && f.path == "main", r);
    let cf = flows(&client, &|f| f.krate == "client" && f.path == "main", r);
    let bin = |n: &'static str| move |f: &Func| f.krate == "bincode" && last(f).starts_with(n);
    let mut de: Vec<(String, String, String)> = vec![]; let mut se: Vec<(String, String, String)> = vec![];
    let last_ty = |p: &Program, f: &Func| f.targs.last().map(|t| p.tys[*t as usize].name.clone()).unwrap_or_default();
    for o in &nf { for (i, g, ..) in o.evs(&bin("deserialize")) { let f = o.f.func(g); de.push((norm(&f.path), last_ty(&node, f), at(&o.f, i))) } }
    for o in &cf { for (i, g, ..) in o.evs(&bin("serialize")) { let f = o.f.func(g); if last(f) != "serialized_size" { se.push((norm(&f.path), last_ty(&client, f), at(&o.f, i))) } } }
    r.floor("decoders in the node", de.len() as u64, 1);
    r.floor("encoders in the client", se.len() as u64, 1);
    for s in &se { for d in &de {
        r.must("same command type", s.1.replace("client::", "") == d.1.replace("vru_node::", ""), || "type".into(), || format!("the client sends {} at {} but the node decodes {} at {}", s.1, s.2, d.1, d.2));
        // bincode::serialize* vs bincode::deserialize* (free functions) use one configuration; Options methods another
        let free = |p: &str| p.starts_with("bincode::") && p.matches("::").count() == 1;
        let stem = |p: &str| p.trim_start_matches('<').split(" as ").next().unwrap_or("").rsplit_once("::").map(|x| x.0.to_string()).unwrap_or_default();
        r.must("same serializer settings", free(&s.0) == free(&d.0) && (free(&s.0) || stem(&s.0) == stem(&d.0)), || "settings".into(), || format!("the client uses {} and the node {}", s.0, d.0));
    } }
    // socket name
    let name = |fl: &Vec<One>, f: &dyn Fn(&Func) -> bool| -> BTreeSet<String> {
        let mut s = BTreeSet::new();
        for o in fl { for (_, _, a, d, _) in o.evs(f) { for v in a.iter().chain(d.iter()) { for x in o.f.syms_of(v) { if let Some((g, ja)) = o.call_of(x) { if last(g) == "join" && g.path.contains("Path") { for v in ja { if let V::Str(t) = strip(&o.f, &v) { s.insert(t.to_string()); } } } } } } } }
        s
    };
    let a = name(&nf, &|f| is(f, "UnixListener", "bind"));
    let b = name(&cf, &|f| is(f, "UnixStream", "connect"));
    r.must("same socket", a == b && a.len() == 1, || "socket".into(), || format!("the node listens on {a:?} and the client connects to {b:?}"));
    // subcommands
    let mut seen_vars = BTreeSet::new();
    for o in &cf {
        let p = o.f.p;
        let ser: Vec<_> = o.evs(&bin("serialize"));
        let sern: FxHashSet<usize> = ser.iter().map(|x| x.0).collect();
        let mut tested = BTreeMap::new();
        for (i, n) in o.f.n.iter().enumerate() { for e in &n.succ { if let Some((d, x, listed)) = o.cond(i, e) { if let S::Discr(t) = o.f.s[d as usize] {
            // the subcommand is a part of the parsed arguments
            let Some((g, _)) = o.root_call(t) else { continue };
            if !(g.path.contains("StructOpt") || g.path.contains("clap")) { continue }
            tested.entry(t).or_insert(vec![]).push((i, e.to, x, listed));
        } } } }
        for (t, es) in tested {
            let Some(vars) = cmd_variants(p) else { continue };
            let nv = vars.len();
            for (_, to, x, listed) in es {
                let ks: Vec<usize> = match x { Some(x) => vec![x as usize], None => (0..nv).filter(|k| !listed.contains(&(*k as u128))).collect() };
                for k in ks {
                    let Some(cv) = vars.get(k) else { continue };
                    let seen = o.f.reach(&[to], &|x| sern.contains(&x), &|j, e| match o.cond(j, e) { Some((d, Some(y), _)) => matches!(o.f.s[d as usize], S::Discr(u) if u == t) && y != k as u128, _ => false });
                    let mut hit = false;
                    for (j, g, _, d, _) in &ser {
                        if !seen.contains(j) { continue }
                        hit = true;
                        let _ = g;
                        let v = d.get(1).cloned().unwrap_or(V::Undef);
                        let res = check_cmd(o, &v, t, cv);
                        seen_vars.insert(cv.name.clone());
                        r.must("subcommand maps to its command", res.is_ok(), || cv.name.clone(), || format!("subcommand {}: {} (sent at {})", cv.name, res.clone().unwrap_err(), at(&o.f, *j)));
                    }
                    r.must("subcommand is sent", hit, || cv.name.clone(), || format!("subcommand {} sends no command", cv.name));
                }
            }
        }
    }
    r.floor("subcommands mapped", seen_vars.len() as u64, 2);
    r.trusted = vec!["bincode and serde derive encode and decode a type consistently".into()];
}
/// a component of the type that bincode reads through a buffer of the claimed length
fn upfront(p: &Program, t: TyId, seen: &mut FxHashSet<TyId>) -> Option<String> {
    if !seen.insert(t) { return None }
    let ty = &p.tys[t as usize];
    match &ty.kind {
        TyKind::Str => Some("str".into()),
        TyKind::Adt { path, variants, args, .. } => {
            let n = path.rsplit("::").next().unwrap_or("");
            if matches!(n, "String" | "ByteBuf" | "PathBuf" | "CString" | "OsString") { return Some(ty.name.clone()) }
            args.iter().find_map(|a| upfront(p, *a, seen)).or_else(|| if matches!(n, "Vec" | "GenericArray" | "SocketAddr") { None } else { variants.iter().flat_map(|v| v.fields.iter()).find_map(|f| upfront(p, f.1, seen)) })
        }
        TyKind::Array(x, _) | TyKind::Slice(x) | TyKind::Ref(x, _) | TyKind::Ptr(x, _) => upfront(p, *x, seen),
        TyKind::Tuple(x) => x.iter().find_map(|x| upfront(p, *x, seen)),
        _ => None,
    }
}
impl<'a> One<'a> {
    fn root_call(&self, s: SId) -> Option<(&'a Func, Vec<V>)> { match &self.f.s[s as usize] { S::Field(x, ..) | S::Deref(x) => self.root_call(*x), S::Call(..) => self.call_of(s), _ => None } }
}
fn cmd_variants(p: &Program) -> Option<Vec<Variant>> { p.tys.iter().find_map(|t| match &t.kind { TyKind::Adt { path, krate, variants, kind: AdtKind::Enum, .. } if krate == "client" && path.ends_with("Cmd") => Some(variants.clone()), _ => None }) }
/// the command built for a subcommand: Connect -> Connect { peer_pi, address }, SendText -> Local { destination, command }
fn check_cmd(o: &One, v: &V, sub: SId, cv: &Variant) -> Result<(), String> {
    let p = o.f.p;
    let V::Agg(a) = v else { return Err("the command is not built from the arguments".into()) };
    let Some(TyKind::Adt { variants, .. }) = p.tys.get(a.ty as usize).map(|t| &t.kind) else { return Err("the command has an unknown type".into()) };
    let Some(var) = variants.get(a.variant as usize) else { return Err("the command has an unknown variant".into()) };
    let want = match cv.name.as_str() { "SendText" => "Local", n => n };
    if var.name != want { return Err(format!("it sends {} instead of {want}", var.name)) }
    for (k, (fname, fty)) in var.fields.iter().enumerate() {
        let Some(f) = a.fields.get(&(k as u32)) else { return Err(format!("{fname} is missing")) };
        let tn = |t: TyId| p.tys[t as usize].name.clone();
        // the argument of the same type, or the text for a byte vector
        let src = cv.fields.iter().position(|x| tn(x.1) == tn(*fty)).or_else(|| cv.fields.iter().position(|x| tn(x.1).ends_with("String") && tn(*fty).contains("Vec<u8>")));
        let Some(src) = src else { return Err(format!("no argument for {fname}")) };
        let direct = |s: SId| matches!(o.f.s[s as usize], S::Field(x, _, i) if x == sub && i == src as u32);
        let ok = match f { V::Sym(s) => direct(*s) || o.call_of(*s).map(|c| matches!(last(c.0), "into_bytes" | "into" | "from" | "to_vec" | "to_owned" | "clone") && c.1.iter().any(|v| matches!(v, V::Sym(x) if direct(*x)))).unwrap_or(false), V::Agg(_) => o.f.syms_of(f).iter().any(|s| direct(*s)), _ => false };
        if !ok { return Err(format!("{fname} is not the argument {}", cv.fields[src].0)) }
    }
    Ok(())
}

pub fn c02(dir: &str, r: &mut Report) {
    r.what = "At every decoding of a command from an accepted control connection: the connection passed a read timeout that is finite and constant, on every path and successfully, and the reader is wrapped in a constant size limit; neither outcome of accepting, configuring or decoding reaches a panic before the next wait.".into();
    let node = load(dir, "vru_node");
    let (mut n, mut nt) = (0, 0);
    for o in flows(&node, &|f| f.krate == "vru_node" && f.path == "main", r) {
        let de = o.evs(&|f| f.krate == "bincode" && last(f).starts_with("deserialize"));
        let acc = o.evs(&|f| is(f, "UnixListener", "accept"));
        let tmo = o.evs(&|f| f.krate == "std" && last(f) == "set_read_timeout");
        nt += tmo.len() as u64;
        let wt = o.evs(&is_wait);
        let fallible: Vec<SId> = de.iter().chain(&acc).chain(&tmo).chain(&wt).filter_map(|x| x.4).collect();
        let waits: FxHashSet<usize> = o.nodes(&is_wait).into_iter().collect();
        let den: FxHashSet<usize> = de.iter().map(|x| x.0).collect();
        for (i, g, a, d, res) in &de {
            n += 1;
            let ad: Vec<&V> = a.iter().chain(d.iter()).collect();
            let f = o.f.func(*g);
            // time: from accept to decoding through the success of a finite timeout
            let good: Vec<SId> = tmo.iter().filter(|t| t.2.get(1).map(|v| match strip(&o.f, v) { V::Agg(x) if x.variant == 1 => x.fields.get(&0).and_then(|d| duration(&o, d)).map(|s| s <= 3600).unwrap_or(false), _ => false }).unwrap_or(false)).filter_map(|t| t.4).collect();
            let from: Vec<usize> = acc.iter().flat_map(|x| o.succ(x.0)).collect();
            let seen = o.f.reach(&from, &|x| waits.contains(&x), &|j, e| match o.cond(j, e) { Some((d, Some(0), _)) => matches!(o.f.s[d as usize], S::Discr(t) if good.contains(&t)), _ => false });
            r.must("reading is bounded in time", !from.is_empty() && !seen.contains(i), || key(&o.f, *i), || format!("the command is decoded at {} from a connection without a successfully set finite read timeout", at(&o.f, *i)));
            // size
            let reader = f.targs.first().map(|t| node.tys[*t as usize].name.clone()).unwrap_or_default();
            let lim = ad.iter().flat_map(|v| o.f.syms_of(v)).filter_map(|s| o.call_of(s)).filter(|c| last(c.0) == "take").find_map(|c| match c.1.get(1) { Some(V::Int(n)) => Some(*n), _ => None });
            let lim2 = ad.iter().flat_map(|v| o.f.syms_of(v)).filter_map(|s| o.call_of(s)).filter(|c| last(c.0) == "with_limit").find_map(|c| c.1.iter().find_map(|v| match v { V::Int(n) => Some(*n), _ => None }));
            let ok = (reader.contains("Take<") && lim.map(|n| n > 0 && n <= 1 << 24).unwrap_or(false)) || lim2.map(|n| n > 0 && n <= 1 << 24).unwrap_or(false);
            r.must("reading is bounded in size", ok, || key(&o.f, *i), || format!("the command is decoded at {} from {reader} without a constant size limit", at(&o.f, *i)));
            // a length-prefixed string or byte buffer is allocated before it is read, whatever the reader's limit
            let mut seen_ty = FxHashSet::default();
            let t = f.targs.last().and_then(|t| upfront(&node, *t, &mut seen_ty));
            r.must("nothing is allocated for a claimed length", t.is_none() || lim2.is_some(), || key(&o.f, *i), || format!("the command decoded at {} contains a {}, which the decoder allocates at its claimed length before reading it", at(&o.f, *i), t.clone().unwrap_or_default()));
            let Some(res) = *res else { continue };
            // the result is returned or tested, never unwrapped
            let seen = o.side(*i, res, 1, &|x| waits.contains(&x), &|_, _| false);
            let locs = o.anyway(&fallible);
            let bad = seen.iter().find(|x| panics(&o, **x).is_some() && !den.contains(x) && !locs.contains(&(o.f.n[**x].cx, o.f.n[**x].bb)));
            r.must("a bad command is only an error", bad.is_none(), || key(&o.f, *i), || format!("a command that cannot be decoded at {} leads to a panic at {}", at(&o.f, *i), at(&o.f, *bad.unwrap())));
        }
        for (i, _, _, _, res) in &acc {
            let Some(res) = *res else { continue };
            let seen = o.side(*i, res, 1, &|x| waits.contains(&x), &|_, _| false);
            let locs = o.anyway(&fallible);
            let bad = seen.iter().find(|x| panics(&o, **x).is_some() && !locs.contains(&(o.f.n[**x].cx, o.f.n[**x].bb)));
            r.must("a failed accept is only an error", bad.is_none(), || key(&o.f, *i), || format!("a failed accept at {} leads to a panic at {}", at(&o.f, *i), at(&o.f, *bad.unwrap())));
        }
    }
    r.floor("decoders of control commands", n, 1);
    r.floor("read timeouts", nt, 1);
    r.trusted = vec!["std: a read with a timeout returns; bincode allocates no more than it has read plus a constant for Vec<u8> (chunked)".into()];
}

pub fn dump(p: &Program, root: FnId) {
    let f = Flow::run(p, root, opts());
    println!("{} nodes {} contexts overflow {}", f.n.len(), f.cx.len(), f.overflow);
    for (i, n) in f.n.iter().enumerate() {
        let pl = f.place_of(i);
        for e in &n.ev {
            match e {
                Ev::Call { f: g, args, derefs, held, .. } => println!("n{i} {} CALL {} ({}) * ({}) held {:?}", pl.1, f.func(*g).path, args.iter().map(|v| f.show_v(v)).collect::<Vec<_>>().join(", "), derefs.iter().map(|v| f.show_v(v)).collect::<Vec<_>>().join(", "), held.iter().map(|s| f.show(*s)).collect::<Vec<_>>()),
                Ev::Panic { what, .. } => println!("n{i} {} PANIC {what}", pl.1),
                Ev::Return { v } => println!("n{i} RETURN {}", f.show_v(v)),
                _ => {}
            }
        }
        for e in &n.succ { if let Some((v, x)) = &e.cond { println!("n{i} -> n{} if {} == {x:?}", e.to, f.show_v(v)) } else { println!("n{i} -> n{}", e.to) } }
    }
}

pub fn hist(p: &Program, root: FnId) {
    let mut op = opts();
    if matches!(p.fns[root as usize].krate.as_str(), "vru_node" | "client") { op.inline = &|f| inline(f) && f.krate != "vru_tcp" }
    let f = Flow::run(p, root, op);
    println!("{} nodes {} contexts overflow {}", f.n.len(), f.cx.len(), f.overflow);
    let mut h: BTreeMap<(Cx, u32), Vec<usize>> = Default::default();
    for (i, n) in f.n.iter().enumerate() { h.entry((n.cx, n.bb)).or_default().push(i); }
    let mut v: Vec<_> = h.into_iter().collect();
    v.sort_by_key(|x| std::cmp::Reverse(x.1.len()));
    for (k, l) in v.iter().take(25) { println!("{} x c{} {} bb{} {}", l.len(), k.0, f.func(f.cx[k.0 as usize].f).path, k.1, f.place_of(l[0]).1) }
    // what distinguishes the states of the worst block
    if let Some((_, l)) = v.first() {
        let mut d: BTreeMap<String, std::collections::BTreeSet<String>> = Default::default();
        for i in l { for (k, x) in &f.n[*i].st.env { d.entry(format!("c{}({})._{}", k.0, f.func(f.cx[k.0 as usize].f).path, k.1)).or_default().insert(f.show_v(x)); } for (s, x) in &f.n[*i].st.facts { d.entry(format!("fact {}", f.show(*s))).or_default().insert(format!("{x:?}")); } }
        let mut d: Vec<_> = d.into_iter().collect();
        d.sort_by_key(|x| std::cmp::Reverse(x.1.len()));
        let mut pc: BTreeMap<String, usize> = Default::default();
        for i in l { for (k, _) in &f.n[*i].st.env { *pc.entry(format!("c{}._{}", k.0, k.1)).or_default() += 1; } for (s, _) in &f.n[*i].st.facts { *pc.entry(format!("fact {}", f.show(*s))).or_default() += 1; } }
        for (k, c) in pc { if c != l.len() { println!("  present in {c}: {k}") } }
        for (k, x) in d.iter().take(6) { println!("  {} = {} values: {}", k, x.len(), x.iter().take(3).map(|s| s.chars().take(80).collect::<String>()).collect::<Vec<_>>().join(" | ")) }
    }
}
