//! Loading and printing the exported program.
use ir::*;
use std::fmt::Write;

pub fn load(dir: &str, name: &str) -> Program {
    let f = std::fs::read(format!("{dir}/{name}.json")).unwrap_or_else(|e| panic!("{dir}/{name}.json: {e}"));
    serde_json::from_slice(&f).expect("malformed dump")
}

pub fn is_ws(krate: &str) -> bool {
    matches!(krate, "rac" | "vru_kyber" | "vru_noise" | "vru_session" | "vru_processor" | "vru_tcp" | "vru_udp" | "vru_node" | "client")
}

pub fn place(p: &Place) -> String {
    let mut s = format!("_{}", p.local);
    for e in &p.proj {
        match e {
            Proj::Deref => s = format!("(*{s})"),
            Proj::Field(i, _) => { let _ = write!(s, ".{i}"); }
            Proj::Index(l) => { let _ = write!(s, "[_{l}]"); }
            Proj::ConstIndex { offset, from_end } => { let _ = write!(s, "[{}{offset}]", if *from_end { "-" } else { "" }); }
            Proj::Subslice { from, to, from_end } => { let _ = write!(s, "[{from}..{}{to}]", if *from_end { "-" } else { "" }); }
            Proj::Downcast(v) => { let _ = write!(s, " as v{v}"); }
            Proj::Cast(_) => s.push_str(" as _"),
        }
    }
    s
}
pub fn konst(p: &Program, c: &Const) -> String {
    match c { Const::Fn(f) => format!("fn {}", p.fns[*f as usize].name), c => { let s = format!("{c:?}"); if s.len() > 80 { format!("{}…", s.chars().take(80).collect::<String>()) } else { s } } }
}
pub fn operand(p: &Program, o: &Operand) -> String {
    match o {
        Operand::Copy(x) => place(x),
        Operand::Move(x) => format!("move {}", place(x)),
        Operand::Const(c, _) => konst(p, c),
        Operand::RuntimeChecks => "RuntimeChecks".into(),
    }
}
pub fn rvalue(p: &Program, r: &Rvalue) -> String {
    let o = |x| operand(p, x);
    match r {
        Rvalue::Use(a) => o(a),
        Rvalue::Ref(a, m) => format!("&{}{}", if *m { "mut " } else { "" }, place(a)),
        Rvalue::RawPtr(a) => format!("&raw {}", place(a)),
        Rvalue::Bin(b, x, y) => format!("{b:?}({}, {})", o(x), o(y)),
        Rvalue::Checked(b, x, y) => format!("{b:?}?({}, {})", o(x), o(y)),
        Rvalue::Un(u, x) => format!("{u:?}({})", o(x)),
        Rvalue::Cast(k, x, t) => format!("{} as {} ({k:?})", o(x), p.tys[*t as usize].name),
        Rvalue::Discr(a) => format!("discr {}", place(a)),
        Rvalue::Len(a) => format!("len {}", place(a)),
        Rvalue::Repeat(a, n) => format!("[{}; {n}]", o(a)),
        Rvalue::Agg(k, xs) => format!("{} {{{}}}", match k { AggK::Adt(t, v, _) => format!("{}#{v}", p.tys[*t as usize].name), k => format!("{k:?}") }, xs.iter().map(o).collect::<Vec<_>>().join(", ")),
        Rvalue::ThreadLocal(s) => format!("tls {s}"),
    }
}
pub fn show_fn(p: &Program, id: FnId) -> String {
    let f = &p.fns[id as usize];
    let mut s = format!("fn #{id} {}  [{}] {:?} args={}\n", f.name, f.path, f.kind, f.args.len());
    let Some(b) = &f.body else { s.push_str("  (no body)\n"); return s };
    for (i, t) in b.locals.iter().enumerate() {
        let nm = b.vars.iter().find(|v| v.1 == i).map(|v| format!(" // {}", v.0)).unwrap_or_default();
        let _ = writeln!(s, "  let _{i}: {}{nm}", p.tys[*t as usize].name);
    }
    for (i, bl) in b.blocks.iter().enumerate() {
        let _ = writeln!(s, " bb{i}:");
        for (st, _) in &bl.stmts {
            match st {
                Stmt::Assign(pl, r) => { let _ = writeln!(s, "    {} = {}", place(pl), rvalue(p, r)); }
                Stmt::Live(_) | Stmt::Dead(_) => {}
                st => { let _ = writeln!(s, "    {st:?}"); }
            }
        }
        let t = match &bl.term {
            Term::Goto(t) => format!("goto bb{t}"),
            Term::Switch(o, _, ts, e) => format!("switch {} {:?} else bb{e}", operand(p, o), ts),
            Term::Drop(pl, t) => format!("drop {} -> bb{t}", place(pl)),
            Term::Call { func, args, dest, target } => {
                let fs = match func { Callee::Direct(f) => format!("#{f} {}", p.fns[*f as usize].name), Callee::Indirect(o) => operand(p, o) };
                format!("{} = call {fs}({}) -> {target:?}", place(dest), args.iter().map(|a| operand(p, a)).collect::<Vec<_>>().join(", "))
            }
            Term::Assert { cond, expected, kind, target, .. } => format!("assert {} == {expected} ({kind}) -> bb{target}", operand(p, cond)),
            t => format!("{t:?}"),
        };
        let _ = writeln!(s, "    {t}");
    }
    s
}
/// run on a thread with a stack deep enough for the call chains of the analysed code
pub fn big<R: Send + 'static>(f: impl FnOnce() -> R + Send + 'static) -> R { std::thread::Builder::new().stack_size(4 << 30).spawn(f).expect("thread").join().expect("analysis thread") }
pub fn line(p: &Program, s: SpanId) -> String { match p.spans.get(s as usize) { Some((f, l)) => format!("{}:{l}", p.files[*f as usize]), None => "?".into() } }

/// integers that the bodies of a crate mention, and the widths that they narrow wider integers to
pub fn mentioned(p: &Program, krate: &str) -> (std::collections::BTreeSet<u128>, std::collections::BTreeSet<u16>) {
    fn of(c: &Const, out: &mut std::collections::BTreeSet<u128>) {
        match c { Const::Int(v) => { out.insert(*v); } Const::Agg(_, x) | Const::Arr(x) if x.len() < 5 => x.iter().for_each(|c| of(c, out)), Const::Ref(c, _) => of(c, out), _ => {} }
    }
    let mut ints: std::collections::BTreeSet<u128> = Default::default(); let mut cuts = std::collections::BTreeSet::new(); let mut more = vec![];
    let bits = |t: TyId| match &p.tys[t as usize].kind { TyKind::Int { bits, .. } => Some(*bits as u16), _ => None };
    for f in p.fns.iter().filter(|f| f.krate == krate) {
        let Some(b) = &f.body else { continue };
        let mut op = |o: &Operand| if let Operand::Const(c, _) = o { of(c, &mut ints) };
        for bl in &b.blocks {
            for (s, _) in &bl.stmts {
                match s {
                    Stmt::Assign(_, r) => match r {
                        Rvalue::Use(a) | Rvalue::Un(_, a) | Rvalue::Repeat(a, _) => op(a),
                        Rvalue::Bin(_, a, b) | Rvalue::Checked(_, a, b) => { op(a); op(b) }
                        Rvalue::Cast(_, a, t) => { op(a); if let Operand::Copy(x) | Operand::Move(x) = a { if let (Some(f), Some(w)) = (bits(x.ty), bits(*t)) { if w < f { cuts.insert(w); } } } }
                        Rvalue::Agg(_, x) => x.iter().for_each(&mut op),
                        _ => {}
                    },
                    _ => {}
                }
            }
            match &bl.term {
                Term::Switch(o, _, v, _) => { op(o); v.iter().for_each(|v| more.push(v.0)) }
                Term::Call { args, .. } => args.iter().for_each(&mut op),
                Term::Assert { cond, ops, .. } => { op(cond); ops.iter().for_each(&mut op) }
                _ => {}
            }
        }
    }
    ints.extend(more);
    (ints, cuts)
}
/// lengths at which code of a crate could change its behaviour: each integer that it mentions and its neighbours, also with a tag more or less, up to a bound, and where a narrowed length wraps
pub fn boundaries(p: &Program, krate: &str, upto: usize) -> Vec<usize> {
    let (ints, cuts) = mentioned(p, krate);
    let mut s: std::collections::BTreeSet<usize> = Default::default();
    for k in ints.into_iter().chain(cuts.into_iter().filter(|w| *w <= 16).map(|w| 1 << w)).filter(|k| *k <= upto as u128) {
        // below a large one any usual length serves
        for d in [-16i64, -15, -1, 0, 1, 16, 17] { if if k > 400 { d != -1 } else { d.abs() < 2 } { if let Ok(n) = usize::try_from(k as i64 + d) { s.insert(n); } } }
    }
    s.into_iter().collect()
}
