mod cfg;
mod check;
mod curve;
mod flow;
mod interp;
mod kyber;
mod ring;
mod models;
mod noise;
mod proto;
mod rac;
mod sess;
mod sim;
mod term;
mod types;
mod util;
use ir::*;

fn main() {
    let a: &'static Vec<String> = Box::leak(Box::new(std::env::args().collect()));
    let arg = |i: usize| -> &str { let s: String = a.get(i).cloned().unwrap_or_default(); Box::leak(s.into_boxed_str()) };
    match arg(1) {
        "sizes" => { let p = util::load(&a[2], &a[3]); println!("{:?}\n{:?}", util::mentioned(&p, &a[4]), util::boundaries(&p, &a[4], 70000)) }
        "fns" => {
            let p = util::load(arg(2), arg(3));
            for (i, f) in p.fns.iter().enumerate() {
                if f.name.contains(arg(4)) { println!("#{i} {} {} [{}] {:?} {}", if f.body.is_some() { "B" } else { "-" }, f.krate, f.path, f.kind, f.name) }
            }
        }
        "facts" => {
            let p = util::load(arg(2), "wire");
            for q in &p.probes { println!("PROBE {} {} {} {}", q.probe, q.ty, q.trait_, q.holds) }
            for q in &p.fields { println!("FIELD {}.{} pub={} {}", q.adt, q.name, q.public, q.held.iter().map(|h| h.path.clone()).collect::<Vec<_>>().join(" ")) }
            for q in &p.sigs { if q.path.contains(arg(3)) { println!("SIG {} {} pub={} reach={} ({}) -> {}", q.krate, q.path, q.public, q.reachable, q.inputs.join(", "), q.output); println!("    in {:?}", q.ins.iter().map(|v| v.iter().map(|h| format!("{}{}<{}>", if h.by_ref { "&" } else { "" }, h.path, h.args.join(","))).collect::<Vec<_>>()).collect::<Vec<_>>()); println!("    out {:?}", q.out.iter().map(|h| format!("{}{}<{}>", if h.by_ref { "&" } else { "" }, h.path, h.args.join(","))).collect::<Vec<_>>()); println!("    calls {}", q.calls.join(" ")) } }
        }
        "show" => {
            let p = util::load(arg(2), arg(3));
            for (i, f) in p.fns.iter().enumerate() {
                let hit = arg(4).strip_prefix('#').map(|n| n.parse() == Ok(i)).unwrap_or_else(|| f.name.contains(arg(4)));
                if hit { print!("{}", util::show_fn(&p, i as u32)) }
            }
        }
        "flow" => {
            let p = util::load(arg(2), arg(3));
            for (i, f) in p.fns.iter().enumerate() {
                if f.body.is_some() && (f.name == arg(4) || arg(4) == format!("#{i}")) { proto::dump(&p, i as u32) }
            }
        }
        "hist" => {
            let p = util::load(arg(2), arg(3));
            for (i, f) in p.fns.iter().enumerate() { if f.body.is_some() && (f.name == arg(4) || arg(4) == format!("#{i}")) { proto::hist(&p, i as u32) } }
        }
        "interp" => util::big(move || {
            let p = util::load(arg(2), arg(3));
            let p: &'static Program = Box::leak(Box::new(p));
            let mut it = interp::Interp::new(p);
            it.log = arg(5) == "1"; it.trace = arg(5) == "2";
            models::install(&mut it);
            let t = std::time::Instant::now();
            let f = it.find_fn(arg(4)).expect("function");
            let mut st = interp::State::default();
            let mut args = vec![];
            for (i, ty) in p.fns[f as usize].args.clone().iter().enumerate() {
                args.push(match p.tys[*ty as usize].kind.clone() { TyKind::Ref(to, _) => { let ct = it.ct(to); let v = it.input(&format!("a{i}"), ct, 0); it.new_ptr(&mut st, v, ct) } _ => { let ct = it.ct(*ty); it.input(&format!("a{i}"), ct, 0) } });
            }
            let r = it.start(f, st, args);
            println!("steps {} terms {} time {:?} returned {}", it.steps, it.t.n.len(), t.elapsed(), r.is_some());
            for l in &it.lost { println!("LOST {}", l.chars().take(220).collect::<String>()) }
            for a in &it.alarms { println!("ALARM {} {} ws {} {} {}", a.kind, p.fns[a.func as usize].path, p.fns[a.ws as usize].path, util::line(p, a.span), a.text) }
            if let Some((st, v)) = r { let ct = it.ct(p.fns[f as usize].ret); let fl = it.flat_v(&st, &v, ct); println!("result {} scalars", fl.len()); for t in fl.iter().take(6) { println!("  {}", it.t.show_d(*t, 6).chars().take(400).collect::<String>()) } }
        }),
        "sim" => util::big(move || {
            let p: &'static Program = Box::leak(Box::new(util::load(arg(2), "wire")));
            let (ns, root) = arg(3).rsplit_once("::").unwrap();
            let n: usize = arg(4).parse().unwrap_or(0);
            let mut s = if ns == "session" { sim::Sim::session(p) } else { sim::Sim::new(p, ns) }; s.it.decoded = 33;
            s.it.trace = arg(5) == "2";
            let t = std::time::Instant::now();
            let f = s.f(root).expect("function");
            let mut args = vec![];
            for (i, ty) in p.fns[f as usize].args.clone().iter().enumerate() {
                args.push(match p.tys[*ty as usize].kind.clone() {
                    TyKind::Ref(to, _) => match p.tys[to as usize].kind.clone() { TyKind::Slice(_) | TyKind::Str => { let b = s.bytes(&format!("a{i}"), n, 0); s.slice(&b) } _ if p.tys[to as usize].name.contains("Vec<") => { let b = s.bytes(&format!("a{i}"), n, 0); s.vec(&b) } _ => { let v = s.unknown(root, i, &format!("a{i}")); s.at(root, i, v) } },
                    _ => s.unknown(root, i, &format!("a{i}")),
                });
            }
            let r = s.call(root, args);
            println!("steps {} terms {} time {:?} returned {}", s.it.steps, s.it.t.n.len(), t.elapsed(), r.is_some());
            for l in &s.it.lost { println!("LOST {}", l.chars().take(220).collect::<String>()) }
            for a in &s.it.alarms { println!("ALARM {} {} ws {} {} {}", a.kind, p.fns[a.func as usize].path, p.fns[a.ws as usize].path, util::line(p, a.span), a.text) }
            if let Some(v) = r { let rt = s.ret_ty(root); let fl = s.flat(&v, rt); println!("result {} scalars", fl.len()); for t in fl.iter().take(6) { println!("  {}", s.show(*t)) } }
        }),
        // check PROPERTY MIRDIR VERIFDIR TIER
        "check" => {
            let t = std::time::Instant::now();
            let mut r = check::Report::new(arg(2));
            let dir = arg(3);
            match arg(2) {
                "K01" => kyber::k01(dir, &mut r),
                "K02" => kyber::k02(dir, &mut r),
                "K03" => kyber::k03(dir, &mut r),
                "K04" => kyber::k04(dir, &mut r),
                "K05" => kyber::k05(dir, &mut r),
                "K06" => kyber::k06(dir, &mut r),
                "K07" => ring::k07(dir, &mut r),
                "K08" => ring::k08(dir, &mut r),
                "N01" => noise::n01(dir, &mut r),
                "N02" => noise::n02(dir, &mut r),
                "N04" => noise::n04(dir, &mut r, arg(5)),
                "N05" => noise::n05(dir, &mut r),
                "N06" => noise::n06(dir, &mut r, arg(5)),
                "N07" => noise::n07(dir, &mut r),
                "N03" => types::n03(dir, &mut r),
                "S08" => types::s08(dir, &mut r),
                "R01" => rac::r01(dir, &mut r),
                "R02" => rac::r02(dir, &mut r),
                "R03" => rac::r03(dir, &mut r),
                "R04" => rac::r04(dir, &mut r),
                "S01" => sess::s01(dir, &mut r),
                "S02" => sess::s02(dir, &mut r),
                "S03" => sess::s03(dir, &mut r),
                "S04" => sess::s04(dir, &mut r),
                "S05" => sess::s05(dir, &mut r),
                "S06" => sess::s06(dir, &mut r),
                "S07" => sess::s07(dir, &mut r),
                "T01" => proto::t01(dir, &mut r),
                "T02" => proto::t02(dir, &mut r),
                "T03" => proto::t03(dir, &mut r),
                "T04" => proto::route::t04(dir, &mut r),
                "C03" => proto::route::c03(dir, &mut r),
                "E01" => proto::route::e01(dir, &mut r),
                "U06" => proto::route::u06(dir, &mut r),
                "U07" => proto::route::u07(dir, &mut r),
                "U01" => proto::u01(dir, &mut r),
                "U02" => proto::u02(dir, &mut r),
                "U03" => proto::u03(dir, &mut r),
                "U04" => proto::u04(dir, &mut r),
                "U05" => proto::u05(dir, &mut r),
                "D01" => proto::d01(dir, &mut r),
                "C01" => proto::c01(dir, &mut r),
                "C02" => proto::c02(dir, &mut r),
                _ => std::process::exit(2),
            }
            std::process::exit(r.finish(arg(5), arg(4), t.elapsed().as_secs_f64()))
        }
        _ => std::process::exit(2),
    }
}
