mod fast;
mod bdd;
mod exec;
mod ir;
mod mem;
mod smt;
mod val;

use bdd::*;
use exec::*;
use std::collections::BTreeMap;
use std::fmt::Write;
use val::cval;

#[global_allocator]
static LISTS: fast::Lists = fast::Lists::new();

fn main() {
    let h = std::thread::Builder::new().stack_size(8 << 30).spawn(real_main).unwrap();
    let code = h.join().unwrap_or(3);
    std::process::exit(code);
}

fn js(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            c if (c as u32) < 32 => {
                let _ = write!(r, "\\u{:04x}", c as u32);
            }
            c => r.push(c),
        }
    }
    r.push('"');
    r
}

/// irsym FILE.ll FUNCTION [ARG...] [--json OUT] [--smt OUT] [--smt-max N] [--time SECONDS] [--nodes N]
///       [--override PAT,PAT=FUNCTION]... [--stub PAT,PAT]...
fn real_main() -> i32 {
    let mut pos = vec![];
    let mut json = None;
    let mut smt_path = None;
    let mut smt_max = 400_000usize;
    let mut time = 36000u64;
    let mut nodes = 400_000_000usize;
    let mut over: Vec<(Vec<String>, String)> = vec![];
    let mut stubs = vec![];
    let mut it = std::env::args().skip(1);
    while let Some(a) = it.next() {
        match a.as_str() {
            "--json" => json = it.next(),
            "--smt" => smt_path = it.next(),
            "--smt-max" => smt_max = it.next().unwrap().parse().unwrap(),
            "--time" => time = it.next().unwrap().parse().unwrap(),
            "--nodes" => nodes = it.next().unwrap().parse().unwrap(),
            "--override" => {
                let s = it.next().unwrap();
                let (p, f) = s.split_once('=').unwrap();
                over.push((p.split(',').map(|x| x.to_string()).collect(), f.to_string()));
            }
            "--stub" => stubs.push(it.next().unwrap().split(',').map(|x| x.to_string()).collect()),
            _ => pos.push(a),
        }
    }
    let t0 = std::time::Instant::now();
    let m = ir::Module::load(&pos[0]);
    let mut e = Engine::new(m);
    e.deadline = t0 + std::time::Duration::from_secs(time);
    e.b.node_limit = nodes;
    e.stub_pats = stubs;
    for (p, f) in &over {
        e.add_override(&p.iter().map(|x| x.as_str()).collect::<Vec<_>>(), f);
    }
    let a: Vec<val::Val> = pos[2..].iter().map(|s| cval(64, s.parse::<u64>().unwrap() as u128)).collect();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| e.run_main(&pos[1], a)));
    let abort = match &r {
        Ok(Ok(_)) => None,
        Ok(Err(x)) => Some(format!("{:?} at {}", x, e.callstack_string())),
        Err(_) => Some("engine panic or node limit".to_string()),
    };
    if let Some(x) = &abort {
        eprintln!("ABORT {}", x);
    }
    let exec_s = t0.elapsed().as_secs_f64();
    // group the verification conditions
    let mut groups: BTreeMap<String, Vec<(Lit, Lit)>> = BTreeMap::new();
    let mut viol: BTreeMap<String, (Lit, String)> = BTreeMap::new();
    let evs = std::mem::take(&mut e.events);
    let (mut nvc, mut trivial) = (0, 0);
    for ev in &evs {
        let name = match &ev.kind {
            EvKind::Assert(i) => format!("assert:{}", i),
            EvKind::Cover(i) => format!("cover:{}", i),
            EvKind::Panic(_) => "panic".to_string(),
        };
        let cover = matches!(ev.kind, EvKind::Cover(_));
        if !cover {
            nvc += 1;
        }
        let gr = groups.entry(name.clone()).or_default();
        if ev.c == TRUE || ev.g == FALSE {
            trivial += 1;
            continue;
        }
        if !gr.contains(&(ev.g, ev.c)) || gr.len() > 2000 {
            gr.push((ev.g, ev.c));
        }
        let v = e.b.and(ev.g, ev.c ^ 1);
        if v != FALSE {
            let what = match &ev.kind {
                EvKind::Panic(s) => s.clone(),
                _ => String::new(),
            };
            viol.entry(if what.is_empty() { name } else { format!("panic: {}", what) }).or_insert((v, what));
        }
    }
    let decode = |e: &Engine, v: Lit| -> Vec<u64> {
        let s = e.b.sat_one(v).unwrap();
        e.inputs
            .iter()
            .map(|(_, bits)| {
                let mut x = 0u64;
                for (i, l) in bits.iter().enumerate() {
                    let var = e.b.top(*l);
                    if s.iter().any(|(v, t)| *v == var && *t) {
                        x |= 1 << i;
                    }
                }
                x
            })
            .collect()
    };
    let mut smt_groups = String::new();
    if let Some(p) = &smt_path {
        let mut ex = smt::Export::new();
        let mut q = String::new();
        for (name, vcs) in &groups {
            let cover = name.starts_with("cover");
            let mut ok = vec![];
            let mut dropped = 0;
            let mut lim = vcs.clone();
            if cover {
                lim.retain(|(g, c)| e.b.and(*g, *c ^ 1) != FALSE);
                lim.truncate(1);
            }
            for (g, c) in &lim {
                if ex.define(&e.b, *g, smt_max) && ex.define(&e.b, *c, smt_max) {
                    ok.push((*g, *c));
                } else {
                    dropped += 1;
                }
            }
            let sat = viol.iter().any(|(k, _)| k == name || (name == "panic" && k.starts_with("panic:")));
            let _ = write!(
                smt_groups,
                "{}{{\"name\":{},\"vcs\":{},\"dropped\":{},\"sat\":{}}}",
                if smt_groups.is_empty() { "" } else { "," },
                js(name),
                ok.len(),
                dropped,
                sat
            );
            let _ = writeln!(q, "(echo \"Q {}\")\n(push 1)\n(assert (or false", name);
            for (g, c) in ok {
                let _ = writeln!(q, " (and {} {})", smt::name(g), smt::name(c ^ 1));
            }
            let _ = writeln!(q, "))\n(check-sat)");
            if sat {
                let _ = write!(q, "(get-value (true");
                for (_, bits) in &e.inputs {
                    for l in bits {
                        if ex.known(*l) {
                            let _ = write!(q, " {}", smt::name(*l));
                        }
                    }
                }
                let _ = writeln!(q, "))");
            }
            let _ = writeln!(q, "(pop 1)");
        }
        let mut s = String::from("(set-option :produce-models true)\n(set-logic QF_UF)\n");
        s.push_str(&ex.text);
        s.push_str(&q);
        std::fs::write(p, s).unwrap();
        smt_groups = format!("{{\"defs\":{},\"groups\":[{}]}}", ex.defs, smt_groups);
    }
    let mut o = String::from("{");
    let _ = write!(o, "\"fn\":{},\"args\":[{}],", js(&pos[1]), pos[2..].join(","));
    let _ = write!(o, "\"abort\":{},", abort.as_ref().map_or("null".into(), |s| js(s)));
    let _ = write!(o, "\"sat\":[");
    for (i, (k, (v, _))) in viol.iter().enumerate() {
        let vals: Vec<String> = decode(&e, *v).iter().map(|x| x.to_string()).collect();
        let _ = write!(o, "{}{{\"kind\":{},\"inputs\":[{}]}}", if i > 0 { "," } else { "" }, js(k), vals.join(","));
        eprintln!("SAT {} {:?}", k, vals);
    }
    let ins: Vec<String> = e.inputs.iter().map(|(_, b)| format!("[{}]", b.iter().map(|l| (*l >> 1).to_string()).collect::<Vec<_>>().join(","))).collect();
    let mut funcs: Vec<String> = e.encoded.iter().map(|s| short(s)).collect();
    funcs.sort();
    funcs.dedup();
    let repo: Vec<String> = e.encoded.iter().filter(|s| s.contains("sneturfahi")).map(|s| s.to_string()).collect();
    let _ = write!(
        o,
        "],\"input_vars\":[{}],\"vcs\":{},\"trivial\":{},\"nodes\":{},\"steps\":{},\"calls\":{},\"memo_hits\":{},\"summaries\":{},\"pruned\":{},\"functions\":{},\"functions_repo\":{},\"overridden\":[{}],\"stubs\":[{}],\"exec_s\":{:.2},\"total_s\":{:.2},\"smt\":{},\"names\":[{}]}}",
        ins.join(","),
        nvc,
        trivial,
        e.b.num_nodes(),
        e.steps,
        e.calls,
        e.memo_hits,
        e.memo_miss,
        e.pruned,
        e.encoded.len(),
        repo.len(),
        e.overridden.iter().map(|s| js(&short(s))).collect::<Vec<_>>().join(","),
        e.stubs.iter().map(|s| js(&short(s))).collect::<Vec<_>>().join(","),
        exec_s,
        t0.elapsed().as_secs_f64(),
        if smt_groups.is_empty() { "null" } else { &smt_groups },
        repo.iter().map(|s| js(s)).collect::<Vec<_>>().join(",")
    );
    if let Some(p) = json {
        std::fs::write(p, o).unwrap();
    }
    eprintln!(
        "time {:.2} nodes {} steps {} calls {} memo {}/{} vcs {} funcs {} pruned {}",
        t0.elapsed().as_secs_f64(),
        e.b.num_nodes(),
        e.steps,
        e.calls,
        e.memo_hits,
        e.memo_miss,
        nvc,
        e.encoded.len(),
        e.pruned
    );
    if std::env::var("PROF").is_ok() {
        for (k, v) in e.nosum.iter().take(30) {
            eprintln!("NOSUM {} {}", v, k);
        }
        let mut v: Vec<_> = e.tprof.iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(x.1 .1));
        for (n, (c, t)) in v.iter().take(40) {
            eprintln!("T {:8} {:8}us {}", c, t / 1000, n);
        }
        let mut v: Vec<_> = e.whyp.iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for (n, c) in v.iter().take(40) {
            eprintln!("W {:8} {} {}", c, n.1, n.0);
        }
        let mut v: Vec<_> = e.prof.iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(x.1 .2));
        for (n, (_, _, k)) in v.iter().take(25) {
            eprintln!("N {:9} {}", k, n);
        }
    }
    if abort.is_some() {
        2
    } else {
        0
    }
}
