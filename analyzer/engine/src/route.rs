//! Flags, commands, datagrams: what is passed to whom (on the flow graphs of the node crates).
use super::*;

// ------------------------------------------------------------------------------------------------ identity of shared objects
impl<'a> One<'a> {
    /// the value a reference or clone stands for, in terms of calls and arguments
    pub fn plain(&self, i: usize, v: &V) -> V {
        let mut v = v.clone();
        for _ in 0..24 {
            v = match &v {
                V::Ref(..) => match self.deref_at(i, &v) { V::Undef => return V::Undef, x => x },
                V::Sym(s) => match &self.f.s[*s as usize] {
                    S::Un(9, x) => x.clone(),
                    S::Deref(x) => V::Sym(*x),
                    S::Call(_, _, g, a) if !a.is_empty() && same_fn(self.f.func(*g)) && !is_guard(self.f.func(*g)) => {
                        // what its argument pointed to when it was called
                        let mut ds: Vec<V> = self.evs_of(*g).into_iter().filter(|e| e.1 == Some(*s)).map(|e| e.0).collect();
                        ds.dedup();
                        match (&a[0], ds.len()) { (_, 1) => ds.pop().unwrap(), (V::Sym(_), _) => a[0].clone(), _ => return V::Undef }
                    }
                    _ => return v,
                },
                _ => return v,
            }
        }
        v
    }
    /// (contents of the first argument, result) of the calls of a function
    fn evs_of(&self, g: FnId) -> Vec<(V, Option<SId>)> {
        let mut o = vec![];
        for n in &self.f.n { { for e in &n.ev { if let Ev::Call { f, derefs, res, .. } = e { if *f == g { o.push((derefs.first().cloned().unwrap_or(V::Undef), *res)) } } } } }
        o
    }
    fn holds(&self, v: &V, t: TyId, d: u32, out: &mut Vec<V>) {
        let n = &self.f.p.tys[t as usize].name;
        if d > 6 { return }
        match &self.f.p.tys[t as usize].kind {
            TyKind::Ref(x, _) => if let TyKind::Adt { .. } = &self.f.p.tys[*x as usize].kind { if is_flag(&self.f.p.tys[*x as usize].name) { out.push(v.clone()) } },
            TyKind::Closure { upvars, .. } => if let V::Agg(a) = v { for (k, u) in upvars.iter().enumerate() { if let Some(x) = a.fields.get(&(k as u32)) { self.holds(x, *u, d + 1, out) } } },
            TyKind::Adt { variants, krate, .. } => if is_flag(n) { out.push(v.clone()) } else if is_ws(krate) { if let V::Agg(a) = v { if let Some(w) = variants.get(a.variant as usize).or(variants.first()) { for (k, f) in w.fields.iter().enumerate() { if let Some(x) = a.fields.get(&(k as u32)) { self.holds(x, f.1, d + 1, out) } } } } },
            _ => {}
        }
    }
}
fn is_flag(n: &str) -> bool { let n = n.replace(' ', ""); matches!(n.as_str(), "std::sync::Arc<std::sync::atomic::Atomic<bool>>" | "std::sync::atomic::Atomic<bool>" | "std::sync::Arc<std::sync::atomic::AtomicBool>" | "std::sync::atomic::AtomicBool") }
fn same_fn(f: &Func) -> bool { f.krate != "popol" && matches!(last(f), "clone" | "deref" | "deref_mut" | "as_ref" | "borrow" | "to_owned" | "cloned" | "copied") }
fn is_flag_op(f: &Func) -> bool { f.path.contains("Atomic") && f.args.first().map(|_| f.name.contains("bool") || f.path.contains("AtomicBool")).unwrap_or(false) && matches!(last(f), "load" | "store" | "swap" | "compare_exchange" | "compare_exchange_weak" | "compare_and_swap" | "fetch_and" | "fetch_or" | "fetch_xor" | "fetch_not" | "fetch_nand" | "fetch_update") }

/// part of T01: one flag, cleared and never set
pub fn flags(udp: &Program, node: &Program, r: &mut Report) {
    let (mut uses, mut stores, mut handlers, mut shared) = (0, 0, 0, 0);
    for (p, e) in [(udp, &udp_entry as &dyn Fn(&Func) -> bool), (node, &tcp_entry)] {
        for o in flows(p, e, r) {
            let mut seen: Vec<(V, usize)> = vec![];
            let mut clears: FxHashSet<usize> = Default::default();
            for (i, n) in o.f.n.iter().enumerate() {
                for e in &n.ev {
                    let Ev::Call { f: g, args, derefs, .. } = e else { continue };
                    let f = o.f.func(*g);
                    let mut vs = vec![];
                    if is_flag_op(f) {
                        vs.push(args[0].clone());
                        let new = |k: usize| derefs.get(k).map(|v| strip(&o.f, v));
                        let ok = match last(f) { "load" => true, "store" | "swap" | "fetch_and" => new(1) == Some(V::Int(0)), "compare_exchange" | "compare_exchange_weak" | "compare_and_swap" => new(2) == Some(V::Int(0)), _ => false };
                        if last(f) != "load" { stores += 1; if ok { clears.insert(i); } }
                        r.must("the running flag is only ever cleared", ok, || key(&o.f, i), || format!("the running flag may be set by {} at {}", last(f), at(&o.f, i)));
                    } else if !same_fn(f) && !f.path.contains("Arc") && (is_ws(&f.krate) || is_spawn(f) || is_handler(f)) {
                        for (k, v) in args.iter().enumerate() { if let Some(t) = f.args.get(k) { let b = vs.len(); o.holds(v, *t, 0, &mut vs); if is_spawn(f) || is_handler(f) { shared += (vs.len() > b) as u64 } } }
                    }
                    for v in vs { let v = o.plain(i, &v); if v != V::Undef && !seen.iter().any(|x| x.0 == v) { seen.push((v, i)) } uses += 1 }
                }
            }
            if let Some(bad) = seen.get(1) { r.must("one running flag", false, || o.name.clone(), || format!("{} uses two different flags: {} at {} and {} at {}", o.name, o.f.show_v(&seen[0].0), at(&o.f, seen[0].1), o.f.show_v(&bad.0), at(&o.f, bad.1))) } else { r.ok("one running flag") }
            for (v, i) in &seen {
                let ok = match v {
                    V::Sym(s) => {
                        // made here as true, or given by the caller
                        let mut s = *s;
                        loop { match &o.f.s[s as usize] { S::Field(x, ..) | S::Deref(x) => s = *x, _ => break } }
                        match &o.f.s[s as usize] { S::Arg(_) => true, S::Call(..) => o.f.syms_of(v).iter().any(|s| o.call_of(*s).map(|c| c.0.path.contains("Atomic") && last(c.0) == "new" && c.1.first() == Some(&V::Int(1))).unwrap_or(false)), S::Un(..) => true, _ => false }
                    }
                    _ => true,
                };
                r.must("the running flag starts as true", ok, || key(&o.f, *i), || format!("the flag used at {} is not known to start as true: {}", at(&o.f, *i), o.f.show_v(v)));
            }
            if o.kind == Kind::Handler {
                handlers += 1;
                let s = o.f.reach(&[o.f.root], &|x| clears.contains(&x), &|_, _| false);
                let bad = s.iter().find(|x| !clears.contains(x) && o.returns(**x));
                r.must("the interrupt handler clears the flag", bad.is_none(), || o.name.clone(), || format!("the interrupt handler {} can return without clearing the running flag", o.name));
            }
        }
    }
    r.floor("uses of running flags", uses, 6);
    r.floor("stores to the running flag", stores, 1);
    r.floor("interrupt handlers", handlers, 1);
    r.floor("threads and handlers that share the flag", shared, 3);
}

// ------------------------------------------------------------------------------------------------ T04
pub fn t04(dir: &str, r: &mut Report) {
    r.what = "In the main threads of the UDP and the TCP node and in the control listener's loop: from every blocking wait, once the edges are removed on which the running flag is false, an error is known to be an interruption, or the event is the waker's token, neither the end of the thread nor (in the listener) the join of the node is reachable.".into();
    let (udp, node) = (load(dir, "vru_udp"), load(dir, "vru_node"));
    let mut n = 0; let mut wakers = 0;
    for (p, e) in [(&udp, &udp_entry as &dyn Fn(&Func) -> bool), (&node, &tcp_entry)] {
        let fl = flows(p, e, r);
        // tokens that only the node's own waker reports
        let mut tokens: Vec<u128> = vec![];
        for o in &fl { for (_, _, a, d, _) in o.evs(&|f| f.krate == "mio" && last(f) == "new" && f.path.contains("Waker")) { let v = d.get(1).or(a.get(1)).map(|v| strip(&o.f, v)); if let Some(V::Agg(a)) = v { if let Some(V::Int(k)) = a.fields.get(&0) { tokens.push(*k); wakers += 1 } } } }
        let mut taken: Vec<u128> = vec![];
        for o in &fl { for (_, _, a, d, _) in o.evs(&|f| f.krate == "mio" && matches!(last(f), "register" | "reregister")) { for v in a.iter().chain(d.iter()) { if let V::Agg(x) = strip(&o.f, v) { if p.tys[x.ty as usize].name.ends_with("Token") { if let Some(V::Int(k)) = x.fields.get(&0) { taken.push(*k) } } } } } }
        tokens.retain(|t| !taken.contains(t));
        for o in &fl {
            let waits: FxHashSet<usize> = o.nodes(&is_wait).into_iter().collect();
            if waits.is_empty() || o.kind == Kind::Entry && !o.f.cx.iter().any(|c| o.f.func(c.f).krate == "vru_node") { continue }
            n += 1;
            // the token of an event, also where a closure takes it from the event
            let is_token = |s: SId| o.history(s).iter().any(|x| o.call_of(*x).map(|c| takes_token(p, c.0) || c.0.targs.iter().flat_map(|t| closures_in(p, *t, 0)).any(|b| p.fns[b as usize].body.as_ref().map(|b| b.blocks.iter().any(|b| matches!(&b.term, Term::Call { func: Callee::Direct(f), .. } if takes_token(p, &p.fns[*f as usize])))).unwrap_or(false))).unwrap_or(false));
            let woken = |j: usize, e: &Edge| match o.cond(j, e) {
                Some((s, Some(x), _)) => match &o.f.s[s as usize] { S::Bin(Bin::Eq, V::Sym(t), V::Int(k)) | S::Bin(Bin::Eq, V::Int(k), V::Sym(t)) => x == 1 && is_token(*t) && tokens.contains(k), S::Call(_, _, g, a) if last(o.f.func(*g)) == "eq" => x == 1 && is_token(s) && a.iter().any(|v| matches!(o.plain(j, v), V::Agg(y) if matches!(y.fields.get(&0), Some(V::Int(k)) if tokens.contains(k)))), S::Bin(..) => false, _ => is_token(s) && tokens.contains(&x) },
                _ => false,
            };
            let cut = |j: usize, e: &Edge| o.is_running_false(j, e) || kind_test(o, j, e, &["Interrupted"]) == Some(true) || woken(j, e);
            let end = |x: usize| o.returns(x) || o.f.has(x, &is_join);
            for i in &waits {
                let seen = o.f.reach(&o.succ(*i), &|x| waits.contains(&x), &cut);
                let bad = seen.iter().find(|x| !waits.contains(x) && end(**x));
                r.must("waiting goes on until the node is stopped", bad.is_none(), || key(&o.f, *i), || format!("{} can end after the wait at {} although it was not told to stop{}", o.name, at(&o.f, *i), bad.map(|b| via(o, *i, *b, &waits, &cut)).unwrap_or_default()));
            }
        }
    }
    r.floor("loops that wait", n, 3);
    r.floor("wakers", wakers, 1);
    r.trusted = vec!["an interrupted wait means that the process was told to stop".into(), "only the node's join uses the waker".into()];
}
/// closures that are part of a type
fn closures_in(p: &Program, t: TyId, d: u32) -> Vec<FnId> {
    if d > 4 { return vec![] }
    match &p.tys[t as usize].kind { TyKind::Closure { body, .. } => vec![*body], TyKind::Adt { args, .. } => args.iter().flat_map(|a| closures_in(p, *a, d + 1)).collect(), TyKind::Ref(x, _) => closures_in(p, *x, d + 1), _ => vec![] }
}
fn takes_token(p: &Program, f: &Func) -> bool { let _ = p; f.krate == "mio" && last(f) == "token" }
/// the last place in the workspace on a path, for a message
fn via(o: &One, from: usize, to: usize, stop: &FxHashSet<usize>, cut: &dyn Fn(usize, &Edge) -> bool) -> String {
    let mut prev: FxHashMap<usize, usize> = Default::default();
    let mut w: std::collections::VecDeque<usize> = [from].into();
    while let Some(x) = w.pop_front() {
        if x == to { break }
        if x != from && stop.contains(&x) { continue }
        for e in &o.f.n[x].succ { if !cut(x, e) && e.to != from && !prev.contains_key(&e.to) { prev.insert(e.to, x); w.push_back(e.to) } }
    }
    let mut x = to; let mut places: Vec<String> = vec![];
    while let Some(p) = prev.get(&x) { x = *p; if o.f.n[x].ev.iter().any(|e| matches!(e, Ev::Call { .. })) { let l = o.f.place_of(x).1; if l.starts_with("vru") && places.last() != Some(&l) { places.push(l) } } if x == from || places.len() > 3 { break } }
    if places.is_empty() { String::new() } else { format!(" (by way of {})", places.join(", ")) }
}

// ------------------------------------------------------------------------------------------------ C03
fn is_command(f: &Func) -> bool { f.krate.starts_with("vru_") && last(f) == "command" && f.path.contains("Node") }
pub fn c03(dir: &str, r: &mut Report) {
    r.what = "In the flow of the node process: from the success of decoding a control command every path comes to exactly one call of Node::command with exactly the decoded value before the next wait or the end, and no other call of it exists; a failure leads to none, and back to the wait. From the listener's loop every path to the end of the process joins the node first and the event thread after it, and nothing keeps the node's handle from it.".into();
    let node = load(dir, "vru_node");
    let (mut nd, mut nc, mut nj) = (0, 0, 0);
    for o in flows(&node, &|f| f.krate == "vru_node" && f.path == "main", r) {
        if o.kind != Kind::Entry { continue }
        let de = o.evs(&|f| f.krate == "bincode" && last(f).starts_with("deserialize"));
        let cmd = o.evs(&is_command);
        let waits: FxHashSet<usize> = o.nodes(&is_wait).into_iter().collect();
        let den: FxHashSet<usize> = de.iter().map(|x| x.0).collect();
        let cmdn: FxHashSet<usize> = cmd.iter().map(|x| x.0).collect();
        let end = |x: usize| o.returns(x) || waits.contains(&x) || o.f.has(x, &is_join);
        for (i, _, _, _, res) in &de {
            nd += 1;
            let Some(res) = *res else { continue };
            let seen = o.side(*i, res, 0, &|x| cmdn.contains(&x) || waits.contains(&x), &|_, _| false);
            let bad = seen.iter().find(|x| !cmdn.contains(x) && end(**x));
            r.must("every command is carried out", bad.is_none(), || key(&o.f, *i), || format!("a command decoded at {} may not be given to the node: {} is reached without it", at(&o.f, *i), at(&o.f, *bad.unwrap())));
            let seen = o.side(*i, res, 1, &|x| cmdn.contains(&x) || waits.contains(&x), &|_, _| false);
            let bad = seen.iter().find(|x| cmdn.contains(x));
            r.must("only decoded commands are carried out", bad.is_none(), || key(&o.f, *i), || format!("after a failure to decode at {} a command is given to the node at {}", at(&o.f, *i), at(&o.f, *bad.unwrap())));
            let cut = |j: usize, e: &Edge| o.is_running_false(j, e) || kind_test(&o, j, e, &["Interrupted"]) == Some(true);
            let stop = |f: &Func| is_join(f) || f.krate.starts_with("vru_") && last(f) == "join" && f.path.contains("Node");
            let seen = o.side(*i, res, 1, &|x| waits.contains(&x), &cut);
            let bad = seen.iter().find(|x| !waits.contains(x) && (o.returns(**x) || o.f.has(**x, &stop)));
            r.must("a command that cannot be decoded is skipped", bad.is_none(), || key(&o.f, *i), || format!("after a failure to decode at {} the process can end at {} without waiting for the next command", at(&o.f, *i), at(&o.f, *bad.unwrap())));
        }
        for (i, g, _, d, _) in &cmd {
            nc += 1;
            let v = d.get(1).map(|v| o.plain(*i, v)).unwrap_or(V::Undef);
            let src = match &v { V::Sym(s) => match o.f.s[*s as usize] { S::Field(x, 0, 0) => de.iter().any(|y| y.4 == Some(x)), _ => false }, _ => false };
            r.must("the decoded command is passed unchanged", src, || key(&o.f, *i), || format!("{} is called at {} with something else than the decoded command: {}", last(o.f.func(*g)), at(&o.f, *i), o.f.show_v(&v).chars().take(160).collect::<String>()));
            let seen = o.f.reach(&o.succ(*i), &|x| den.contains(&x) || waits.contains(&x), &|_, _| false);
            let bad = seen.iter().find(|x| cmdn.contains(x));
            r.must("a command is carried out once", bad.is_none(), || key(&o.f, *i), || format!("a command given to the node at {} is given to it again at {}", at(&o.f, *i), at(&o.f, *bad.unwrap())));
        }
        // shutdown: the node is joined, then the event thread
        let joins: Vec<usize> = o.nodes(&|f| f.krate.starts_with("vru_") && last(f) == "join" && f.path.contains("Node"));
        let ev_joins: FxHashSet<usize> = o.evs(&is_join).into_iter().map(|x| x.0).collect();
        nj += joins.len() as u64;
        let jn: FxHashSet<usize> = joins.iter().copied().collect();
        for i in o.nodes(&|f| f.krate.starts_with("vru_") && last(f) == "spawn" && f.path.contains("Node<")) {
            let Some(res) = o.evs(&|f| last(f) == "spawn").into_iter().find(|x| x.0 == i).and_then(|x| x.4) else { continue };
            let seen = o.side(i, res, 0, &|x| jn.contains(&x), &|_, _| false);
            let bad = seen.iter().find(|x| !jn.contains(x) && o.returns(**x));
            r.must("the node is joined before the process ends", bad.is_none(), || key(&o.f, i), || format!("the process can end after the node was started at {} without joining it", at(&o.f, i)));
            let bad = seen.iter().find(|x| ev_joins.contains(x));
            r.must("the event thread is joined last", bad.is_none(), || key(&o.f, i), || format!("the event thread is waited for at {} before the node is joined, which keeps its channel open", at(&o.f, *bad.unwrap())));
        }
        for i in &joins {
            let seen = o.f.reach(&o.succ(*i), &|x| ev_joins.contains(&x), &|_, _| false);
            let bad = seen.iter().find(|x| !ev_joins.contains(x) && o.returns(**x));
            r.must("all events are delivered before the process ends", bad.is_none(), || key(&o.f, *i), || format!("after the node was joined at {} the process can end without waiting for the event thread", at(&o.f, *i)));
        }
    }
    // the event thread ends only with its channel, and does not panic
    for o in flows(&node, &|_| false, r) {
        let rc = o.evs(&|f| is_recv(f) || f.krate.starts_with("vru_") && last(f) == "recv" && f.path.contains("NodeRef"));
        if o.kind != Kind::Thread || rc.is_empty() || o.f.cx.first().map(|c| o.f.func(c.f).krate != "vru_node").unwrap_or(true) { continue }
        let rn: FxHashSet<usize> = rc.iter().map(|x| x.0).collect();
        for (i, g, _, _, res) in &rc {
            let Some(res) = *res else { continue };
            let seen = o.side(*i, res, ok_variant(&o, *g), &|x| rn.contains(&x), &|_, _| false);
            let bad = seen.iter().find(|x| !rn.contains(x) && o.returns(**x));
            r.must("events are consumed until the node is gone", bad.is_none(), || key(&o.f, *i), || format!("the event thread can end after the event received at {}", at(&o.f, *i)));
            // printing, whatever a logger makes of it
            let told: FxHashSet<usize> = o.evs(&|f| f.krate.starts_with("tracing") || f.krate == "log" || matches!(last(f), "_print" | "_eprint") || f.path.contains("fmt::Arguments")).into_iter().map(|x| x.0).collect();
            let seen = o.side(*i, res, ok_variant(&o, *g), &|x| told.contains(&x) || rn.contains(&x), &|_, _| false);
            let bad = seen.iter().find(|x| rn.contains(x));
            r.must("every event is reported", bad.is_none(), || key(&o.f, *i), || format!("the event received at {} may be dropped without a report", at(&o.f, *i)));
        }
        nj += 1;
    }
    r.floor("decoders of commands", nd, 1);
    r.floor("calls of Node::command", nc, 1);
    r.floor("joins of the node and event loops", nj, 2);
}

// ------------------------------------------------------------------------------------------------ U06, U07
struct Look { node: usize, name: String, map: TyId, of: V, key: V, res: Option<SId>, val: V }
fn is_map(f: &Func) -> bool { (f.path.contains("HashMap") || f.path.contains("BTreeMap") || f.path.contains("VacantEntry") || f.path.contains("OccupiedEntry") || f.path.contains("Entry<")) && !matches!(last(f), "new" | "iter" | "next" | "into_iter" | "len" | "default") }
fn looks(o: &One) -> Vec<Look> {
    let mut v = all_looks(o);
    // a place at which several things may be looked up
    let odd: FxHashSet<SId> = v.iter().filter(|a| v.iter().any(|b| a.res.is_some() && a.res == b.res && a.key != b.key)).filter_map(|a| a.res).collect();
    for l in &mut v { if l.res.map(|r| odd.contains(&r)).unwrap_or(false) { l.key = V::Undef } }
    v
}
fn all_looks(o: &One) -> Vec<Look> {
    o.evs(&is_map).into_iter().map(|(i, g, a, d, res)| {
        let f = o.f.func(g);
        let entry = f.path.contains("Entry");
        Look { node: i, of: o.plain(i, &a[0]), name: last(f).to_string(), map: f.args.first().map(|t| match o.f.p.tys[*t as usize].kind { TyKind::Ref(x, _) => x, _ => *t }).unwrap_or(0), key: if entry { a.first().cloned().unwrap_or(V::Undef) } else { d.get(1).map(|v| o.plain(i, v)).unwrap_or(V::Undef) }, res, val: if last(f) == "insert" { d.get(if entry { 1 } else { 2 }).map(|v| o.plain(i, v)).unwrap_or(V::Undef) } else { V::Undef } }
    }).collect()
}
/// variant and field of a type by name
fn field_of(p: &Program, t: TyId, var: &str, field: &str) -> Option<(u32, u32)> {
    let TyKind::Adt { variants, .. } = &p.tys[t as usize].kind else { return None };
    let k = variants.iter().position(|v| v.name == var)?;
    Some((k as u32, variants[k].fields.iter().position(|f| f.0 == field)? as u32))
}
impl<'a> One<'a> {
    /// the value is this field of an argument
    fn arg_field(&self, v: &V, arg: u32, f: (u32, u32)) -> bool {
        match v { V::Sym(s) => match self.f.s[*s as usize] { S::Field(x, _, i) => i == f.1 && matches!(self.f.s[x as usize], S::Arg(a) if a == arg), _ => false }, _ => false }
    }
    /// edge on which a lookup is known to have found something (Some(true)) or nothing (Some(false))
    fn found(&self, i: usize, e: &Edge, l: &Look) -> Option<bool> {
        let res = l.res?;
        let (s, x, listed) = self.cond(i, e)?;
        match &self.f.s[s as usize] {
            S::Discr(t) if *t == res => { let x = x.or(if listed.len() == 1 && listed[0] < 2 { Some(1 - listed[0]) } else { None })?; if l.name == "entry" { Some(x == 0) } else { Some(x == 1) } }
            _ if s == res && l.name == "contains_key" => Some(x? == 1),
            S::Call(_, _, g, a) if matches!(last(self.f.func(*g)), "is_some" | "is_none") && a.iter().any(|v| matches!(v, V::Sym(t) if *t == res)) => Some((last(self.f.func(*g)) == "is_some") == (x? == 1)),
            _ => None,
        }
    }
    /// the symbols a value is made of, also through clones
    fn origin(&self, i: usize, v: &V) -> FxHashSet<SId> {
        let mut out: FxHashSet<SId> = Default::default();
        let mut w = self.f.syms_of(&match v { V::Ref(..) => self.deref_at(i, v), v => v.clone() });
        while let Some(s) = w.pop() {
            if !out.insert(s) { continue }
            if let S::Call(_, _, g, _) = &self.f.s[s as usize] { if same_fn(self.f.func(*g)) { let x = self.plain(i, &V::Sym(s)); if x != V::Sym(s) { w.extend(self.f.syms_of(&x)) } } }
        }
        out
    }
    /// the calls a value comes from, also through the memory they were given
    fn history(&self, s: SId) -> FxHashSet<SId> {
        let mut out: FxHashSet<SId> = Default::default();
        let mut w = self.f.syms_of(&V::Sym(s));
        while let Some(s) = w.pop() {
            if out.len() > 400 || !out.insert(s) { continue }
            if let Some((_, _, _, d)) = self.out_call(s) { for d in &d { w.extend(self.f.syms_of(d)) } }
            if let S::Call(..) = &self.f.s[s as usize] { for n in &self.f.n { for e in &n.ev { if let Ev::Call { res: Some(r), derefs, .. } = e { if *r == s { for d in derefs { w.extend(self.f.syms_of(d)) } } } } } }
        }
        out
    }
    fn made_from(&self, v: &V, s: SId) -> bool { match v { V::Sym(x) => self.f.contains(*x, s), v => self.f.syms_of(v).contains(&s) } }
}
fn event_variant<'p>(o: &One<'p>, v: &V, name: &str) -> Option<V> {
    // an event that carries the error variant of this name: its content
    let mut w = vec![v.clone()];
    while let Some(V::Agg(a)) = w.pop() {
        if let Some(TyKind::Adt { variants, .. }) = o.f.p.tys.get(a.ty as usize).map(|t| &t.kind) { if variants.get(a.variant as usize).map(|x| x.name == name).unwrap_or(false) { return a.fields.get(&0).cloned() } }
        for x in a.fields.values() { w.push(x.clone()) }
    }
    None
}
pub fn u06(dir: &str, r: &mut Report) {
    r.what = "In Node::command of the UDP node. Local: every message sent to a worker carries exactly the command of the argument and goes to a handle that was looked up under the argument's destination; once edges are removed on which such a lookup finds nothing, every path sends, and none sends twice; a handle taken out of one table is put into another under the same identity before the function returns. Connect: the table of pending dials receives exactly the given address and identity, only where a test of the same table says that the address is not in it; where it is, the address is reported as failed, and one of the two always happens.".into();
    let udp = load(dir, "vru_udp");
    let (mut ns, mut nl, mut ni, mut nr) = (0, 0, 0, 0);
    for o in flows(&udp, &|f| f.krate == "vru_udp" && last(f) == "command" && f.path.contains("Node"), r) {
        if o.kind != Kind::Entry { continue }
        let root = o.f.func(o.f.cx[0].f);
        let Some(ct) = root.args.get(1).copied() else { continue };
        let fields = [("Local", "destination"), ("Local", "command"), ("Connect", "address"), ("Connect", "peer_pi")].map(|(v, f)| field_of(&udp, ct, v, f));
        let [Some(dest), Some(comm), Some(addr), Some(peer)] = fields else { r.must("the command type is known", false, || "Command".into(), || "the command of the UDP node has no Connect { address, peer_pi } and Local { destination, command }".into()); continue };
        let arg = 2;
        let is_kind = |j: usize, e: &Edge, k: u32| match o.cond(j, e) { Some((s, x, listed)) => match o.f.s[s as usize] { S::Discr(t) if matches!(o.f.s[t as usize], S::Arg(a) if a == arg) => match x { Some(x) => x != k as u128, None => listed.contains(&(k as u128)) }, _ => false }, _ => false };
        let ls = looks(&o);
        // ---- local commands
        let sends: Vec<_> = o.evs(&is_send).into_iter().filter(|x| !o.f.func(x.1).name.contains("Event")).collect();
        let sn: FxHashSet<usize> = sends.iter().map(|x| x.0).collect();
        let mine: Vec<&Look> = ls.iter().filter(|l| o.arg_field(&l.key, arg, dest) && l.name != "insert").collect();
        if std::env::var("DBG").is_ok() { for l in &ls { eprintln!("{} {} of {} key {} val {}", at(&o.f, l.node), l.name, o.f.show_v(&l.of), o.f.show_v(&l.key), o.f.show_v(&l.val)) } }
        nl += mine.iter().map(|l| o.f.show_v(&l.of)).collect::<BTreeSet<_>>().len() as u64;
        for (i, _, a, d, _) in &sends {
            ns += 1;
            let v = d.get(1).cloned().unwrap_or(V::Undef);
            let ok = match &v { V::Agg(a) => a.fields.len() == 1 && a.fields.values().all(|v| o.arg_field(&o.plain(*i, v), arg, comm)), v => o.arg_field(v, arg, comm) };
            r.must("the command is passed unchanged", ok, || key(&o.f, *i), || format!("the message sent at {} does not carry the given command: {}", at(&o.f, *i), o.f.show_v(&v)));
            let _ = a;
            let h = d.first().cloned().unwrap_or(V::Undef);
            let to = mine.iter().any(|l| l.res.map(|s| o.made_from(&h, s)).unwrap_or(false));
            r.must("the command goes to the named peer", to, || key(&o.f, *i), || format!("the command is sent at {} to a handle that was not looked up under its destination: {}", at(&o.f, *i), o.f.show_v(&h)));
            let again = o.f.reach(&o.succ(*i), &|_| false, &|_, _| false);
            let bad = again.iter().find(|x| sn.contains(x));
            r.must("a command is sent once", bad.is_none(), || key(&o.f, *i), || format!("the command sent at {} is sent again at {}", at(&o.f, *i), at(&o.f, *bad.unwrap())));
        }
        let cut = |j: usize, e: &Edge| is_kind(j, e, dest.0) || mine.iter().any(|l| o.found(j, e, l) == Some(false));
        let seen = o.f.reach(&[o.f.root], &|x| sn.contains(&x), &cut);
        let bad = seen.iter().find(|x| !sn.contains(x) && o.returns(**x));
        r.must("a command for a known peer is sent", bad.is_none(), || "Local".into(), || format!("a local command for a peer that is known may not be sent: {} is reached without it", at(&o.f, *bad.unwrap())));
        for l in &mine {
            // tables in which the handle found here is stored hold it from then on
            let kept: Vec<String> = ls.iter().filter(|x| x.name == "insert" && l.res.map(|s| o.made_from(&x.val, s)).unwrap_or(false)).map(|x| o.f.show_v(&x.of)).collect();
            let same = o.f.show_v(&l.of);
            let cut = |j: usize, e: &Edge| is_kind(j, e, dest.0) || mine.iter().any(|m| o.found(j, e, m) == Some(false) && (m.node == l.node || { let t = o.f.show_v(&m.of); kept.contains(&t) || t == same && !l.name.starts_with("remove") }));
            let seen = o.f.reach(&o.succ(l.node), &|x| sn.contains(&x), &cut);
            let bad = seen.iter().find(|x| !sn.contains(x) && o.returns(**x));
            r.must("a command for a known peer is sent", bad.is_none(), || format!("Local:{}", l.name), || format!("a local command for a peer that is found at {} may not be sent: {} is reached without it", at(&o.f, l.node), at(&o.f, *bad.unwrap())));
        }
        // nothing is given up before every table was searched; what was found in a table is still there when it is looked up again
        let tables: Vec<String> = mine.iter().map(|l| o.f.show_v(&l.of)).collect::<BTreeSet<_>>().into_iter().collect();
        let table = |l: &Look| tables.iter().position(|t| *t == o.f.show_v(&l.of)).unwrap_or(0);
        for (k, t) in tables.iter().enumerate() {
            let at_t: FxHashSet<usize> = mine.iter().filter(|l| table(l) == k).map(|l| l.node).collect();
            let mut seen: FxHashSet<(usize, u64)> = Default::default();
            let mut w = vec![(o.f.root, 0u64)];
            let mut bad = None;
            while let Some((j, mut has)) = w.pop() {
                if !seen.insert((j, has)) || sn.contains(&j) || at_t.contains(&j) { continue }
                if o.returns(j) { bad = Some(j) }
                for l in mine.iter().filter(|l| l.node == j && matches!(l.name.as_str(), "remove" | "remove_entry")) { has &= !(1 << table(l)) }
                for e in &o.f.n[j].succ {
                    if is_kind(j, e, dest.0) { continue }
                    let mut h = has;
                    let mut dead = false;
                    for l in &mine {
                        match o.found(j, e, l) { Some(true) => if !matches!(l.name.as_str(), "remove" | "remove_entry") { h |= 1 << table(l) }, Some(false) => dead |= has >> table(l) & 1 == 1, None => {} }
                    }
                    if !dead { w.push((e.to, h)) }
                }
            }
            r.must("every table of handles is searched", bad.is_none(), || format!("Local:{t}"), || format!("a local command may be given up at {} without looking into {t}", at(&o.f, bad.unwrap())));
        }
        for l in &mine {
            if !matches!(l.name.as_str(), "remove" | "remove_entry" | "take") { continue }
            let Some(res) = l.res else { continue };
            let back: FxHashSet<usize> = ls.iter().filter(|x| x.name == "insert" && o.made_from(&x.val, res)).map(|x| x.node).collect();
            let seen = o.f.reach(&o.succ(l.node), &|x| back.contains(&x), &|j, e| o.found(j, e, l) == Some(false));
            let bad = seen.iter().find(|x| !back.contains(x) && o.returns(**x));
            r.must("a handle is not lost", bad.is_none(), || key(&o.f, l.node), || format!("the handle taken out at {} is not stored again before {}", at(&o.f, l.node), at(&o.f, *bad.unwrap())));
        }
        for l in ls.iter().filter(|l| l.name == "insert" && mine.iter().any(|m| m.res.map(|s| o.made_from(&l.val, s)).unwrap_or(false))) {
            let ok = o.arg_field(&l.key, arg, dest) || mine.iter().any(|m| m.res.map(|s| o.made_from(&l.key, s)).unwrap_or(false));
            r.must("a handle is stored under its identity", ok, || key(&o.f, l.node), || format!("the handle found under the destination is stored at {} under something else", at(&o.f, l.node)));
        }
        // ---- dials
        let dials: Vec<&Look> = ls.iter().filter(|l| l.name == "insert" && !mine.iter().any(|m| m.res.map(|s| o.made_from(&l.val, s)).unwrap_or(false))).collect();
        let tests: Vec<&Look> = ls.iter().filter(|l| o.arg_field(&l.key, arg, addr) && matches!(l.name.as_str(), "contains_key" | "get" | "get_mut" | "entry" | "get_key_value")).collect();
        let din: FxHashSet<usize> = dials.iter().map(|l| l.node).collect();
        let reports: FxHashSet<usize> = o.evs(&is_send).into_iter().filter(|x| o.f.func(x.1).name.contains("Event")).filter(|x| x.3.get(1).and_then(|v| event_variant(&o, v, "ConnectionFailed")).map(|v| o.arg_field(&o.plain(x.0, &v), arg, addr) || { let w: FxHashSet<SId> = o.f.syms_of(&v).into_iter().chain(o.origin(x.0, &v)).flat_map(|s| o.history(s)).collect(); w.iter().any(|k| o.call_of(*k).map(|c| last(c.0) == "key" && is_map(c.0)).unwrap_or(false)) && tests.iter().any(|t| t.name == "entry" && t.res.map(|r| w.contains(&r)).unwrap_or(false)) }).unwrap_or(false)).map(|x| x.0).collect();
        ni += dials.len() as u64; nr += reports.len() as u64;
        let kind = |j: usize, e: &Edge| is_kind(j, e, addr.0);
        for l in &dials {
            let entry = match &l.key { V::Sym(s) => tests.iter().find(|t| t.name == "entry" && t.res.map(|x| o.f.contains(*s, x)).unwrap_or(false)), _ => None };
            let ok = (entry.is_some() || o.arg_field(&l.key, arg, addr)) && o.arg_field(&l.val, arg, peer);
            r.must("the dial is recorded as given", ok, || key(&o.f, l.node), || format!("the dial recorded at {} is not the given address with the given identity", at(&o.f, l.node)));
            if entry.is_some() { continue }
            let seen = o.f.reach(&[o.f.root], &|_| false, &|j, e| kind(j, e) || tests.iter().any(|t| o.found(j, e, t) == Some(false)));
            r.must("a pending dial is not replaced", !seen.contains(&l.node), || key(&o.f, l.node), || format!("the dial recorded at {} may replace one that is pending for the same address", at(&o.f, l.node)));
        }
        let seen = o.f.reach(&[o.f.root], &|x| din.contains(&x), &|j, e| kind(j, e) || tests.iter().any(|t| o.found(j, e, t) == Some(true)));
        let bad = seen.iter().find(|x| !din.contains(x) && (o.returns(**x) || reports.contains(x)));
        r.must("a dial of a fresh address is recorded", bad.is_none(), || "Connect".into(), || format!("a dial of an address that is not pending is not recorded: {} is reached", at(&o.f, *bad.unwrap())));
        let seen = o.f.reach(&[o.f.root], &|x| reports.contains(&x) || din.contains(&x), &kind);
        let bad = seen.iter().find(|x| !reports.contains(x) && !din.contains(x) && o.returns(**x));
        r.must("a refused dial is reported", bad.is_none(), || "Connect".into(), || format!("a dial may be neither recorded nor reported as failed: {} is reached", at(&o.f, *bad.unwrap())));
    }
    r.floor("messages to workers", ns, 1);
    r.floor("tables searched for the destination", nl, 2);
    r.floor("dials recorded", ni, 1);
    r.floor("reports of refused dials", nr, 1);
    r.trusted = vec!["std's maps".into()];
}
pub fn u07(dir: &str, r: &mut Report) {
    r.what = "In the main thread of the UDP node, after a frame was received: a message to a worker carries the sender's address and, for a worker found in the table, the received frame itself, and that worker was looked up under the first bytes of the same frame; where the lookup finds one, every path sends. Where none is found and the address is a pending dial (removed from the table by that address), every path that does not panic starts one worker with the handshake state made for that dial, stores it, and stores the handle of the same channel under the dialled identity.".into();
    let udp = load(dir, "vru_udp");
    let (mut nm, mut nk, mut nd) = (0, 0, 0);
    let Some(size) = frame_size(&udp) else { r.floor("frame type", 0, 1); return };
    for o in flows(&udp, &udp_entry, r) {
        let rec = o.evs(&|f| is(f, "UdpSocket", "recv_from"));
        // a table of workers or handles is only emptied where nothing follows
        let table = |t: TyId| { let t = match udp.tys[t as usize].kind { TyKind::Ref(x, _) => x, _ => t }; let n = &udp.tys[t as usize].name; n.contains("Map<") && map_args(&udp, t).map(|(_, v)| { let v = &udp.tys[v as usize].name; v.ends_with("::Peer") || v.ends_with("::PeerHandle") || v == "Peer" || v == "PeerHandle" }).unwrap_or(false) };
        let later: FxHashSet<usize> = o.nodes(&|f| is_wait(f)).into_iter().collect();
        for (i, g, _, _, _) in o.evs(&|f| matches!(last(f), "clear" | "drain" | "retain" | "extract_if" | "take" | "replace" | "swap") && f.args.first().map(|t| table(*t)).unwrap_or(false)) {
            let again = last(root_of(&o)) == "command" || o.f.reach(&o.succ(i), &|_| false, &|_, _| false).iter().any(|x| later.contains(x));
            r.must("workers and handles are kept", !again, || key(&o.f, i), || format!("{} at {} gives up workers or handles while the node goes on", last(o.f.func(g)), at(&o.f, i)));
        }
        if rec.is_empty() { continue }
        r.ok("workers and handles are kept");
        let waits: FxHashSet<usize> = o.nodes(&is_wait).into_iter().collect();
        let ls = looks(&o);
        for (ri, rg, _, _, res) in &rec {
            let Some(res) = *res else { continue };
            let (rc, rb) = (o.f.n[*ri].cx, o.f.n[*ri].bb);
            let is_addr = |v: &V| match v { V::Sym(s) => match o.f.s[*s as usize] { S::Field(x, _, 1) => matches!(o.f.s[x as usize], S::Field(y, _, 0) if y == res), _ => false }, _ => false };
            // is the value a prefix of the received bytes? what an element-wise copy leaves behind is not tracked: there the received bytes must at least be read
            let used = o.f.n.iter().any(|n| n.ev.iter().any(|e| matches!(e, Ev::Call { f, derefs, .. } if matches!(last(o.f.func(*f)), "iter" | "index" | "into_iter" | "get" | "as_ref" | "deref" | "next" | "get_unchecked" | "zip" | "chunks" | "try_into" | "try_from") && derefs.iter().any(|v| o.f.syms_of(v).iter().any(|s| matches!(&o.f.s[*s as usize], S::Out(c, b, g, 1) if (*c, *b, g) == (rc, rb, rg)))))));
            let frame = |v: &V, len: u64| -> bool {
                let l = o.sources(v, len);
                if std::env::var("DBG").is_ok() { for x in &l { eprintln!("{}..{} {} {:?}", x.0, x.1, o.f.show_v(&x.2), x.3) } }
                let mut pos = 0;
                // what is copied as a whole is tracked: the rest then is what was there before
                let known = l.iter().any(|(_, _, v, _)| matches!(v, V::Sym(s) if matches!(&o.f.s[*s as usize], S::Out(c, b, g, 1) if (*c, *b, g) == (rc, rb, rg))));
                !l.is_empty() && l.iter().all(|(a, b, v, from)| {
                    let ok = *a == pos && match v {
                        V::Sym(s) => match &o.f.s[*s as usize] { S::Out(c, b, g, 1) if (*c, *b, g) == (rc, rb, rg) => from == a, S::Out(_, _, g, _) => used && matches!(last(o.f.func(*g)), "iter_mut" | "as_mut" | "deref_mut" | "index_mut" | "next" | "get_mut" | "zip" | "for_each" | "swap"), S::Part(w, ..) => matches!(w, V::Undef) && used, _ => false },
                        V::Undef => used && !known,
                        _ => false,
                    };
                    pos = *b; ok
                }) && pos == len
            };
            let tok_len = |t: TyId| -> u64 { udp.tys[t as usize].size.unwrap_or(0) };
            let here = o.side(*ri, res, 0, &|x| waits.contains(&x), &|j, e| o.is_running_false(j, e));
            let peers: Vec<&Look> = ls.iter().filter(|l| here.contains(&l.node) && map_args(&udp, l.map).map(|(k, v)| udp.tys[v as usize].name.ends_with("::Peer") && !udp.tys[k as usize].name.contains("SocketAddr")).unwrap_or(false)).collect();
            let find: Vec<&&Look> = peers.iter().filter(|l| matches!(l.name.as_str(), "get" | "get_mut" | "contains_key" | "entry" | "index")).collect();
            for l in &find {
                let kt = map_args(&udp, l.map).map(|x| x.0).unwrap_or(0);
                r.must("the worker is looked up by the frame's link token", frame(&l.key, tok_len(kt)) && tok_len(kt) > 0, || key(&o.f, l.node), || format!("the worker is looked up at {} under something else than the first {} bytes of the frame: {}", at(&o.f, l.node), tok_len(kt), o.f.show_v(&l.key)));
                nk += 1;
            }
            let sends: Vec<_> = o.evs(&is_send).into_iter().filter(|x| here.contains(&x.0) && !o.f.func(x.1).name.contains("Event")).collect();
            let sn: FxHashSet<usize> = sends.iter().map(|x| x.0).collect();
            for (i, g, _, d, _) in &sends {
                nm += 1;
                let v = d.get(1).cloned().unwrap_or(V::Undef);
                let V::Agg(a) = &v else { r.must("the worker learns the sender's address", false, || key(&o.f, *i), || format!("the message sent at {} is not known", at(&o.f, *i))); continue };
                let fs: Vec<V> = a.fields.values().cloned().collect();
                r.must("the worker learns the sender's address", fs.iter().any(|v| is_addr(&o.plain(*i, v))), || key(&o.f, *i), || format!("the message sent at {} does not carry the address the frame came from", at(&o.f, *i)));
                let h = d.first().cloned().unwrap_or(V::Undef);
                let known = find.iter().any(|l| l.res.map(|s| o.made_from(&h, s)).unwrap_or(false));
                if known {
                    r.must("the worker gets the received frame", fs.iter().any(|v| frame(&o.plain(*i, v), size)), || key(&o.f, *i), || format!("the message sent at {} does not carry the received frame", at(&o.f, *i)));
                    let again = o.f.reach(&o.succ(*i), &|x| waits.contains(&x), &|_, _| false);
                    r.must("a frame is passed once", !again.iter().any(|x| sn.contains(x)), || key(&o.f, *i), || format!("the frame sent at {} is sent again", at(&o.f, *i)));
                } else {
                    let fresh = o.origin(*i, &h).iter().any(|s| o.call_of(*s).map(|c| last(c.0) == "channel").unwrap_or(false));
                    r.must("the frame goes to its worker", fresh, || key(&o.f, *i), || format!("a frame is sent at {} to a worker that was not found under its link token", at(&o.f, *i)));
                }
                let _ = g;
            }
            for l in &find {
                let seen = o.f.reach(&o.succ(l.node), &|x| sn.contains(&x) || waits.contains(&x), &|j, e| find.iter().any(|l| o.found(j, e, l) == Some(false)) || o.is_running_false(j, e));
                let bad = seen.iter().find(|x| !sn.contains(x) && (waits.contains(x) || o.returns(**x)));
                r.must("a frame with a known link is passed on", bad.is_none(), || key(&o.f, l.node), || format!("a frame whose worker is found at {} may not be passed to it", at(&o.f, l.node)));
            }
            // ---- dials
            for l in ls.iter().filter(|l| here.contains(&l.node) && matches!(l.name.as_str(), "remove" | "remove_entry") && map_args(&udp, l.map).map(|(k, _)| udp.tys[k as usize].name.contains("SocketAddr")).unwrap_or(false)) {
                let Some(pi) = l.res else { continue };
                nd += 1;
                r.must("the dial is found by the sender's address", is_addr(&l.key), || key(&o.f, l.node), || format!("the pending dial is taken out at {} under something else than the address the frame came from", at(&o.f, l.node)));
                let spawns: Vec<_> = o.evs(&is_spawn);
                let found = |j: usize, e: &Edge| o.found(j, e, l) == Some(false) || o.is_running_false(j, e);
                let after = o.f.reach(&o.succ(l.node), &|x| waits.contains(&x), &found);
                let spn: FxHashSet<usize> = spawns.iter().filter(|x| after.contains(&x.0)).map(|x| x.0).collect();
                let need = |what: &str, set: &FxHashSet<usize>, msg: &str, r: &mut Report| {
                    let seen = o.f.reach(&o.succ(l.node), &|x| set.contains(&x) || waits.contains(&x), &found);
                    let bad = seen.iter().find(|x| !set.contains(x) && (waits.contains(x) || o.returns(**x)));
                    r.must(what, bad.is_none(), || key(&o.f, l.node), || format!("after the dial was taken out at {} {msg}", at(&o.f, l.node)));
                };
                need("a dial starts a worker", &spn, "no worker may be started", r);
                for (i, _, a, d, _) in &spawns {
                    if !after.contains(i) { continue }
                    let st: Vec<SId> = a.iter().chain(d.iter()).flat_map(|v| o.f.syms_of(v)).filter(|s| o.call_of(*s).map(|c| is_out0(c.0)).unwrap_or(false)).collect();
                    // the state is what out0 returned first
                    let state = a.iter().chain(d.iter()).any(|v| has_state(&o, v, &st));
                    r.must("the worker gets the handshake state of its dial", state, || key(&o.f, *i), || format!("the worker started at {} does not get the handshake state made for the dial", at(&o.f, *i)));
                    let ch: FxHashSet<SId> = a.iter().chain(d.iter()).flat_map(|v| o.origin(*i, v)).filter(|s| o.call_of(*s).map(|c| last(c.0) == "channel" || last(c.0) == "sync_channel").unwrap_or(false)).collect();
                    let ins: Vec<&Look> = ls.iter().filter(|x| x.name == "insert" && after.contains(&x.node)).collect();
                    let same = |v: &V| { let s = o.origin(*i, v); ch.iter().any(|c| s.contains(c)) };
                    let handles: FxHashSet<usize> = ins.iter().filter(|x| same(&x.val) && match &x.key { V::Sym(s) => matches!(o.f.s[*s as usize], S::Field(y, _, _) if y == pi) || matches!(o.f.s[*s as usize], S::Field(y, ..) if matches!(o.f.s[y as usize], S::Field(z, ..) if z == pi)), _ => false }).map(|x| x.node).collect();
                    need("the handle of a dialled peer is stored under its identity", &handles, "the handle of the new worker may not be stored under the dialled identity", r);
                    let kept: FxHashSet<usize> = ins.iter().filter(|x| same(&x.val) && map_args(&udp, x.map).map(|(_, v)| udp.tys[v as usize].name.ends_with("::Peer")).unwrap_or(false)).map(|x| x.node).collect();
                    need("a new worker is stored", &kept, "the new worker may not be stored, so it is never joined", r);
                }
            }
        }
    }
    r.floor("messages to workers", nm, 1);
    r.floor("lookups by link token", nk, 1);
    r.floor("pending dials answered", nd, 1);
    r.trusted = vec!["std's maps and channels".into()];
}
fn root_of<'a>(o: &One<'a>) -> &'a Func { o.f.func(o.f.cx[0].f) }
/// key and value type of a map
fn map_args(p: &Program, t: TyId) -> Option<(TyId, TyId)> { match &p.tys[t as usize].kind { TyKind::Adt { args, .. } if args.len() >= 2 => Some((args[0], args[1])), _ => None } }
/// the value contains the first part of an out0 result
fn has_state(o: &One, v: &V, st: &[SId]) -> bool {
    match v {
        V::Agg(a) => a.fields.values().any(|v| has_state(o, v, st)),
        V::Sym(s) => matches!(o.f.s[*s as usize], S::Field(x, _, 0) if st.contains(&x)),
        _ => false,
    }
}

// ------------------------------------------------------------------------------------------------ E01
fn is_rx(f: &Func) -> bool { f.path.contains("mpsc") && matches!(last(f), "recv" | "try_recv" | "recv_timeout" | "recv_deadline" | "next") }
fn about_event(f: &Func) -> bool { f.name.contains("Event") }
/// the value under any number of `Ok` and `Some`, and whether one of the wrappers was the other variant
enum Given { Value(V), Nothing, Gone }
fn given(o: &One, v: &V) -> Given {
    match v {
        V::Agg(a) => {
            let Some(t) = o.f.p.tys.get(a.ty as usize) else { return Given::Value(v.clone()) };
            let (res, opt) = (t.name.starts_with("std::result::Result<"), t.name.starts_with("std::option::Option<"));
            match (res, opt, a.variant) {
                (true, _, 1) => Given::Gone,
                (_, true, 0) => Given::Nothing,
                (true, ..) | (_, true, _) => a.fields.get(&0).map(|v| given(o, v)).unwrap_or(Given::Value(V::Undef)),
                _ => Given::Value(v.clone()),
            }
        }
        V::Sym(s) => match &o.f.s[*s as usize] {
            S::Call(_, _, g, a) if a.len() == 1 && matches!(last(o.f.func(*g)), "Some" | "Ok") => given(o, &a[0]),
            S::Un(9, x) => given(o, x),
            _ => Given::Value(v.clone()),
        },
        _ => Given::Value(v.clone()),
    }
}
pub fn e01(dir: &str, r: &mut Report) {
    r.what = "UDP and TCP node: in every method of the node reference each path on which an event was received returns that very event and receives no other; each path on which the channel is known to be closed says so, and a channel that is merely empty is not taken for a closed one. Starting a node makes one channel for events, whose receiver goes into the reference; no other channel for events is made and nothing else receives from one. Every function that takes an event sends exactly it, once, on a channel without bound, on every path.".into();
    let (udp, tcp, node) = (load(dir, "vru_udp"), load(dir, "vru_tcp"), load(dir, "vru_node"));
    let (mut nr, mut nc, mut ns) = (0u64, 0u64, 0u64);
    let is_event = |p: &Program, t: TyId| { let n = &p.tys[t as usize].name; matches!(p.tys[t as usize].kind, TyKind::Adt { .. }) && (n.ends_with("::Event") || n.split('<').next().map(|x| x.ends_with("::Event")).unwrap_or(false)) };
    // ---- the reference
    let readers = |f: &Func| is_ws(&f.krate) && f.path.contains("NodeRef") && !f.is_closure && matches!(last(f), "recv" | "try_recv");
    for p in [&udp, &tcp] {
        for o in flows(p, &readers, r) {
            if o.kind != Kind::Entry { continue }
            let rx = o.evs(&|f| is_rx(f) && about_event(f));
            let rn: FxHashSet<usize> = rx.iter().map(|x| x.0).collect();
            let ret = |x: usize| o.f.n[x].ev.iter().find_map(|e| match e { Ev::Return { v } => Some(v.clone()), _ => None });
            nr += 1;
            r.must("the reference receives events", !rx.is_empty(), || o.name.clone(), || format!("{} receives nothing", o.name));
            for (i, g, _, _, res) in &rx {
                let Some(res) = *res else { continue };
                let okv = ok_variant(&o, *g);
                let seen = o.side(*i, res, okv, &|x| rn.contains(&x), &|_, _| false);
                let bad = seen.iter().find(|x| rn.contains(x));
                r.must("no received event is dropped", bad.is_none(), || key(&o.f, *i), || format!("after an event was received at {} another one is received at {}", at(&o.f, *i), at(&o.f, *bad.unwrap())));
                // where something was received, it is returned
                let other = |j: usize, e: &Edge| o.other_variant(j, e, res, okv);
                let sure: FxHashSet<usize> = o.variant_edges(res, okv).into_iter().collect();
                let got = if sure.is_empty() { seen.clone() } else { o.f.reach(&sure.iter().copied().collect::<Vec<_>>(), &|x| rn.contains(&x), &other) };
                for x in got {
                    let Some(v) = ret(x) else { continue };
                    let fine = match given(&o, &v) { Given::Value(V::Sym(s)) => s == res || matches!(o.f.s[s as usize], S::Field(y, _, 0) if y == res), _ => false };
                    r.must("a received event is returned", fine, || key(&o.f, x), || format!("{} returns something else than the event received at {}: {}", o.name, at(&o.f, *i), o.f.show_v(&v).chars().take(160).collect::<String>()));
                }
                // the other side: variants 0 and 1 of the error are `empty` (or `timeout`) and `disconnected`
                let et = o.f.p.tys[o.f.func(*g).ret as usize].name.clone();
                let both = et.contains("TryRecvError") || et.contains("RecvTimeoutError");
                if last(o.f.func(*g)) == "next" { continue }
                let err = 1 - okv;
                let is_err = |t: SId| matches!(o.f.s[t as usize], S::Field(y, _, 0) if y == res);
                let kind = |j: usize, e: &Edge, want: u128| match o.cond(j, e) { Some((d, x, listed)) => match o.f.s[d as usize] { S::Discr(t) if is_err(t) => match x { Some(x) => x != want, None => listed.contains(&want) },
                    _ => match &o.f.s[d as usize] {
                        // a comparison with one of the two
                        S::Call(_, _, g, a) if matches!(last(o.f.func(*g)), "eq" | "ne") && a.len() == 2 => {
                            let v: Vec<V> = a.iter().map(|v| o.plain(j, v)).collect();
                            let c = match (&v[0], &v[1]) { (V::Sym(s), V::Agg(a)) | (V::Agg(a), V::Sym(s)) if is_err(*s) => a.variant as u128, _ => return false };
                            let Some(x) = x else { return false };
                            ((last(o.f.func(*g)) == "eq") == (x == 1)) != (c == want)
                        }
                        _ => false,
                    } }, _ => false };
                let gone = o.side(*i, res, err, &|x| rn.contains(&x), &|j, e| both && kind(j, e, 1));
                for x in gone {
                    if rn.contains(&x) { r.must("the end of the node is told", false, || key(&o.f, x), || format!("{} may go on receiving at {} although the node is gone", o.name, at(&o.f, x))); continue }
                    let Some(v) = ret(x) else { continue };
                    let fine = match given(&o, &v) { Given::Gone => true, Given::Value(V::Sym(s)) => s == res, _ => false };
                    r.must("the end of the node is told", fine, || key(&o.f, x), || format!("{} does not say that the node is gone when the channel is closed: {}", o.name, o.f.show_v(&v).chars().take(160).collect::<String>()));
                }
                if !both { continue }
                let empty = o.side(*i, res, err, &|x| rn.contains(&x), &|j, e| kind(j, e, 0));
                for x in empty {
                    let Some(v) = ret(x) else { continue };
                    let fine = match given(&o, &v) { Given::Nothing => true, Given::Value(V::Sym(s)) => s == res, _ => false };
                    r.must("an empty channel is not taken for a closed one", fine, || key(&o.f, x), || format!("{} says that the node is gone although there is just no event: {}", o.name, o.f.show_v(&v).chars().take(160).collect::<String>()));
                }
            }
        }
    }
    // ---- the channel
    let spawn = |f: &Func| matches!(f.krate.as_str(), "vru_udp" | "vru_tcp") && last(f) == "spawn" && f.path.contains("Node") && !f.path.contains("NodeState");
    for (p, e, lib) in [(&udp, &udp_entry as &dyn Fn(&Func) -> bool, "vru_udp"), (&node, &tcp_entry, "vru_tcp")] {
        for o in flows(p, e, r) {
            let here = o.f.func(o.f.cx[0].f);
            let mk = o.evs(&|f| f.path.contains("mpsc") && matches!(last(f), "channel" | "sync_channel") && about_event(f));
            if o.kind == Kind::Entry && here.krate == lib && spawn(here) {
                nc += 1;
                let sites: BTreeSet<(Cx, u32)> = mk.iter().map(|x| (o.f.n[x.0].cx, o.f.n[x.0].bb)).collect();
                r.must("a node has one channel for events", sites.len() == 1, || o.name.clone(), || format!("{} makes {} channels for events", o.name, sites.len()));
                for (i, n) in o.f.n.iter().enumerate() {
                    for e in &n.ev {
                        let Ev::Return { v } = e else { continue };
                        let V::Agg(a) = v else { continue };
                        if a.variant != 0 { continue }
                        let mut w: Vec<V> = a.fields.values().cloned().collect();
                        let mut found = false;
                        while let Some(v) = w.pop() {
                            match &v {
                                V::Agg(a) => {
                                    let is_ref = o.f.p.tys.get(a.ty as usize).map(|t| t.name.ends_with("NodeRef")).unwrap_or(false);
                                    if is_ref { found = a.fields.values().any(|v| match o.plain(i, v) { V::Sym(s) => matches!(o.f.s[s as usize], S::Field(y, _, 1) if mk.iter().any(|m| m.4 == Some(y))), _ => false }) }
                                    else { w.extend(a.fields.values().cloned()) }
                                }
                                _ => {}
                            }
                        }
                        r.must("the reference holds the receiver of the node's channel", found, || key(&o.f, i), || format!("the reference returned at {} does not hold the receiver of the channel made for events", at(&o.f, i)));
                    }
                }
            } else {
                for m in &mk { r.must("a node has one channel for events", false, || key(&o.f, m.0), || format!("{} makes a further channel for events at {}", o.name, at(&o.f, m.0))) }
            }
            for (i, g, _, _, _) in o.evs(&|f| is_rx(f) && about_event(f)) {
                let mut c = o.f.n[i].cx; let mut inside = false;
                loop { let k = &o.f.cx[c as usize]; inside |= o.f.func(k.f).path.contains("NodeRef"); match k.parent { Some((p, _)) => c = p, None => break } }
                r.must("only the reference receives events", inside, || key(&o.f, i), || format!("{} takes events out of the channel at {}", last(o.f.func(g)), at(&o.f, i)));
            }
            for (i, g, _, _, _) in o.evs(&|f| is_send(f) && about_event(f)) {
                r.must("events are sent without a bound", !o.f.func(g).path.contains("SyncSender") || last(o.f.func(g)) == "send", || key(&o.f, i), || format!("the event sent at {} is lost when the channel is full", at(&o.f, i)));
            }
        }
        // ---- functions that take an event
        let takes = |f: &Func| f.krate == lib && f.args.iter().any(|t| is_event(p, *t)) && !is_event(p, f.ret);
        for o in flows(p, &takes, r) {
            if o.kind != Kind::Entry { continue }
            let here = o.f.func(o.f.cx[0].f);
            let Some(k) = here.args.iter().position(|t| is_event(p, *t)) else { continue };
            let arg = k as u32 + 1;
            let is_arg = |v: &V| matches!(v, V::Sym(s) if matches!(o.f.s[*s as usize], S::Arg(a) if a == arg));
            let sends = o.evs(&|f| is_send(f) && about_event(f));
            let sn: FxHashSet<usize> = sends.iter().map(|x| x.0).collect();
            let seen = o.f.reach(&[o.f.root], &|x| sn.contains(&x), &|_, _| false);
            let bad = seen.iter().find(|x| !sn.contains(x) && o.returns(**x));
            r.must("a reported event is sent", bad.is_none(), || norm(&o.name), || format!("{} can return without having sent the event it was given", o.name));
            for (i, _, _, d, res) in &sends {
                ns += 1;
                r.must("the event is sent unchanged", d.get(1).map(|v| is_arg(&o.plain(*i, v))).unwrap_or(false), || key(&o.f, *i), || format!("{} sends something else than the event it was given at {}", o.name, at(&o.f, *i)));
                let Some(res) = *res else { continue };
                let again = o.side(*i, res, 0, &|_| false, &|_, _| false);
                r.must("an event is sent once", !again.iter().any(|x| sn.contains(x)), || key(&o.f, *i), || format!("the event sent at {} is sent again", at(&o.f, *i)));
            }
        }
    }
    r.floor("methods of the node reference", nr, 4);
    r.floor("starts of a node", nc, 2);
    r.notes.push(format!("{ns} sends in functions that take an event"));
    r.trusted = vec!["std's channels deliver what one thread sends in order".into()];
}
