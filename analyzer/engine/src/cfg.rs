//! Control-flow facts of one function: postdominators, loops, liveness, loop exit slices.
use ir::*;
use std::collections::BTreeMap;

pub const EXIT: usize = usize::MAX;
pub struct Loop { pub body: Vec<bool>, pub carried: Vec<usize> }
pub struct Cfg {
    pub succ: Vec<Vec<usize>>,
    pub reach: Vec<bool>,
    pub ipdom: Vec<usize>,
    pub loops: BTreeMap<usize, Loop>,
    pub is_header: Vec<bool>,
    pub live: Vec<Vec<u64>>,
    pub addr: Vec<bool>,
    pub consts: Vec<u128>,
    pub unreachable: Vec<bool>,
}
fn rv_ops<'a>(r: &'a Rvalue) -> (Vec<&'a Operand>, Vec<&'a Place>) {
    match r {
        Rvalue::Use(a) | Rvalue::Un(_, a) | Rvalue::Cast(_, a, _) | Rvalue::Repeat(a, _) => (vec![a], vec![]),
        Rvalue::Ref(p, _) | Rvalue::RawPtr(p) | Rvalue::Discr(p) | Rvalue::Len(p) => (vec![], vec![p]),
        Rvalue::Bin(_, a, b) | Rvalue::Checked(_, a, b) => (vec![a, b], vec![]),
        Rvalue::Agg(_, v) => (v.iter().collect(), vec![]),
        Rvalue::ThreadLocal(_) => (vec![], vec![]),
    }
}
fn place_uses(p: &Place, f: &mut dyn FnMut(usize)) { f(p.local); for e in &p.proj { if let Proj::Index(l) = e { f(*l) } } }
fn op_uses(o: &Operand, f: &mut dyn FnMut(usize)) { if let Operand::Copy(p) | Operand::Move(p) = o { place_uses(p, f) } }
/// uses and full definition of a statement
fn stmt_ud(s: &Stmt, u: &mut dyn FnMut(usize)) -> Option<usize> {
    match s {
        Stmt::Assign(p, r) => {
            let (os, ps) = rv_ops(r);
            for o in os { op_uses(o, u) } for q in ps { place_uses(q, u) }
            if p.proj.is_empty() { Some(p.local) } else { place_uses(p, u); None }
        }
        Stmt::SetDiscr(p, _) => { place_uses(p, u); None }
        Stmt::Live(l) | Stmt::Dead(l) => Some(*l),
        Stmt::Assume(o) => { op_uses(o, u); None }
        Stmt::CopyNonOverlapping(a, b, c) => { op_uses(a, u); op_uses(b, u); op_uses(c, u); None }
    }
}
fn term_ud(t: &Term, u: &mut dyn FnMut(usize)) -> Option<usize> {
    match t {
        Term::Switch(o, ..) => { op_uses(o, u); None }
        Term::Return => { u(0); None }
        Term::Call { func, args, dest, .. } => {
            if let Callee::Indirect(o) = func { op_uses(o, u) }
            for a in args { op_uses(a, u) }
            if dest.proj.is_empty() { Some(dest.local) } else { place_uses(dest, u); None }
        }
        Term::Assert { cond, ops, .. } => { op_uses(cond, u); for o in ops { op_uses(o, u) } None }
        _ => None,
    }
}
pub fn succs(t: &Term) -> Vec<usize> {
    match t {
        Term::Goto(t) | Term::Drop(_, t) => vec![*t],
        Term::Switch(_, _, v, e) => { let mut r: Vec<usize> = v.iter().map(|x| x.1).collect(); r.push(*e); r.sort(); r.dedup(); r }
        Term::Call { target, .. } => target.iter().copied().collect(),
        Term::Assert { target, .. } => vec![*target],
        _ => vec![],
    }
}
impl Cfg {
    pub fn new(b: &Body) -> Cfg {
        let n = b.blocks.len();
        let succ: Vec<Vec<usize>> = b.blocks.iter().map(|x| succs(&x.term)).collect();
        let mut pred = vec![vec![]; n];
        for i in 0..n { for &s in &succ[i] { pred[s].push(i) } }
        let unreachable: Vec<bool> = b.blocks.iter().map(|x| x.stmts.is_empty() && matches!(x.term, Term::Unreachable)).collect();
        // blocks from which the function returns
        let mut reach = vec![false; n];
        let mut w: Vec<usize> = (0..n).filter(|i| matches!(b.blocks[*i].term, Term::Return)).collect();
        while let Some(x) = w.pop() { if !reach[x] { reach[x] = true; w.extend(pred[x].iter()) } }
        // postdominators over returning blocks (node n is the exit)
        let mut order = vec![]; let mut seen = vec![false; n + 1];
        let rsucc = |x: usize| -> Vec<usize> { if x == n { (0..n).filter(|i| matches!(b.blocks[*i].term, Term::Return)).collect() } else { pred[x].clone() } };
        let mut stack: Vec<(usize, Vec<usize>)> = vec![(n, rsucc(n))]; seen[n] = true;
        while let Some((x, v)) = stack.last_mut() {
            if let Some(y) = v.pop() { if !seen[y] { seen[y] = true; let r = rsucc(y); stack.push((y, r)) } } else { order.push(*x); stack.pop(); }
        }
        let mut num = vec![usize::MAX; n + 1];
        for (i, x) in order.iter().enumerate() { num[*x] = i }
        let mut ip = vec![usize::MAX; n + 1]; ip[n] = n;
        loop {
            let mut ch = false;
            for &x in order.iter().rev() {
                if x == n { continue }
                let mut nw = usize::MAX;
                let mut sv: Vec<usize> = succ[x].iter().copied().filter(|s| reach[*s]).collect();
                if matches!(b.blocks[x].term, Term::Return) { sv.push(n) }
                for s in sv {
                    if ip[s] == usize::MAX { continue }
                    nw = if nw == usize::MAX { s } else { let (mut p, mut q) = (s, nw); while p != q { while num[p] < num[q] { p = ip[p] } while num[q] < num[p] { q = ip[q] } } p };
                }
                if nw != ip[x] { ip[x] = nw; ch = true }
            }
            if !ch { break }
        }
        let ipdom = (0..n).map(|i| if ip[i] == n { EXIT } else { ip[i] }).collect();
        // loops
        let mut loops: BTreeMap<usize, Loop> = BTreeMap::new();
        let mut color = vec![0u8; n];
        let mut st: Vec<(usize, usize)> = vec![(0, 0)]; color[0] = 1;
        while let Some((x, i)) = st.pop() {
            if i < succ[x].len() {
                st.push((x, i + 1));
                let s = succ[x][i];
                if color[s] == 0 { color[s] = 1; st.push((s, 0)) }
                else if color[s] == 1 {
                    let l = loops.entry(s).or_insert_with(|| Loop { body: vec![false; n], carried: vec![] });
                    l.body[s] = true;
                    let mut w = vec![x];
                    while let Some(y) = w.pop() { if !l.body[y] { l.body[y] = true; w.extend(pred[y].iter()) } }
                }
            } else { color[x] = 2 }
        }
        let nl = b.locals.len(); let words = (nl + 63) / 64;
        let mut addr = vec![false; nl];
        for bl in &b.blocks { for (s, _) in &bl.stmts { if let Stmt::Assign(_, Rvalue::Ref(p, _) | Rvalue::RawPtr(p)) = s { if !matches!(p.proj.first(), Some(Proj::Deref)) { addr[p.local] = true } } } }
        // liveness
        let mut live = vec![vec![0u64; words]; n];
        let mut ch = true;
        while ch {
            ch = false;
            for i in (0..n).rev() {
                let mut l = vec![0u64; words];
                for &s in &succ[i] { for k in 0..words { l[k] |= live[s][k] } }
                let mut us = vec![];
                let d = term_ud(&b.blocks[i].term, &mut |x| us.push(x));
                if let Some(d) = d { l[d / 64] &= !(1 << (d % 64)) }
                for x in us { l[x / 64] |= 1 << (x % 64) }
                for (s, _) in b.blocks[i].stmts.iter().rev() {
                    let mut us = vec![];
                    let d = stmt_ud(s, &mut |x| us.push(x));
                    if let Some(d) = d { l[d / 64] &= !(1 << (d % 64)) }
                    for x in us { l[x / 64] |= 1 << (x % 64) }
                }
                if l != live[i] { live[i] = l; ch = true }
            }
        }
        // locals that carry the exit conditions of a loop from one iteration to the next
        let mut refs: Vec<(usize, usize)> = vec![];
        for bl in &b.blocks { for (s, _) in &bl.stmts { if let Stmt::Assign(d, Rvalue::Ref(p, _) | Rvalue::RawPtr(p)) = s { refs.push((d.local, p.local)) } } }
        for (h, l) in loops.iter_mut() {
            let mut set = vec![false; nl]; let mut w = vec![];
            for i in 0..n { if l.body[i] { if let Term::Switch(o, ..) = &b.blocks[i].term { if succ[i].iter().any(|s| !l.body[*s] && reach[*s]) { op_uses(o, &mut |x| w.push(x)) } } } }
            let mut modif = vec![false; nl];
            while let Some(x) = w.pop() {
                if set[x] { continue } set[x] = true;
                for (r, p) in &refs { if *r == x { w.push(*p) } if *p == x { w.push(*r) } }
                for i in 0..n { if l.body[i] {
                    for (s, _) in &b.blocks[i].stmts {
                        if let Stmt::Assign(p, _) = s { if p.local == x { stmt_ud(s, &mut |y| w.push(y)); } }
                    }
                    if let Term::Call { args, dest, .. } = &b.blocks[i].term {
                        let mut us = vec![]; for a in args { op_uses(a, &mut |y| us.push(y)) }
                        if dest.local == x || us.iter().any(|u| set[*u] && refs.iter().any(|(r, _)| r == u)) { w.extend(us) }
                    }
                } }
            }
            for i in 0..n { if l.body[i] {
                for (s, _) in &b.blocks[i].stmts { if let Stmt::Assign(p, _) = s { modif[p.local] = true } }
                if let Term::Call { dest, .. } = &b.blocks[i].term { modif[dest.local] = true }
            } }
            for (r, p) in &refs { if modif[*r] { modif[*p] = true } }
            l.carried = (0..nl).filter(|x| set[*x] && modif[*x] && (addr[*x] || live[*h][x / 64] >> (x % 64) & 1 == 1)).collect();
        }
        let mut consts = vec![];
        let mut oc = |o: &Operand| if let Operand::Const(Const::Int(v), _) = o { consts.push(*v) };
        for bl in &b.blocks {
            for (s, _) in &bl.stmts { if let Stmt::Assign(_, r) = s { for o in rv_ops(r).0 { oc(o) } if let Rvalue::Repeat(_, n) = r { consts_push(&mut oc, *n) } } }
            if let Term::Call { args, .. } = &bl.term { for a in args { oc(a) } }
        }
        consts.sort(); consts.dedup();
        let mut is_header = vec![false; n]; for h in loops.keys() { is_header[*h] = true }
        Cfg { succ, reach, ipdom, loops, is_header, live, addr, consts, unreachable }
    }
    pub fn is_live(&self, bb: usize, l: usize) -> bool { self.addr[l] || self.live[bb][l / 64] >> (l % 64) & 1 == 1 }
}
fn consts_push(f: &mut dyn FnMut(&Operand), n: u64) { f(&Operand::Const(Const::Int(n as u128), 0)) }
