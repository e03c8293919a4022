mod exec;
mod expr;
mod ir;
mod mem;
mod selftest;
mod solver;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    let h = std::thread::Builder::new().stack_size(8 << 30).spawn(real_main).unwrap();
    let r = h.join();
    std::process::exit(match r {
        Ok(c) => c,
        Err(_) => 3,
    });
}
fn real_main() -> i32 {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(|s| s.as_str()) == Some("--selftest") {
        return selftest::run(args.get(2).and_then(|x| x.parse().ok()).unwrap_or(300));
    }
    let mut file = String::new();
    let mut entry = String::new();
    let mut out = String::new();
    let mut src = String::from("/repo/");
    let mut dump = None;
    let mut budget = 60.0;
    let mut cfg = exec::Cfg { params: vec![], max_paths: 1_000_000, max_insts: 200_000_000, fuel: u64::MAX, time: 600.0, preemptions: 1000, verbose: false, max_viol: 12 };
    let mut i = 1;
    while i < args.len() {
        let a = args[i].as_str();
        let mut v = || {
            i += 1;
            args[i].clone()
        };
        match a {
            "--entry" => entry = v(),
            "--out" => out = v(),
            "--src" => src = v(),
            "--params" => cfg.params = v().split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect(),
            "--time" => cfg.time = v().parse().unwrap(),
            "--max-paths" => cfg.max_paths = v().parse().unwrap(),
            "--max-insts" => cfg.max_insts = v().parse().unwrap(),
            "--fuel" => cfg.fuel = v().parse().unwrap(),
            "--max-viol" => cfg.max_viol = v().parse().unwrap(),
            "--preempt" => cfg.preemptions = v().parse().unwrap(),
            "--budget" => budget = v().parse().unwrap(),
            "--dump" => dump = Some(v()),
            "-v" => cfg.verbose = true,
            _ => file = a.to_string(),
        }
        i += 1;
    }
    let t0 = std::time::Instant::now();
    let m = ir::Module::load(&file);
    let mut ex = exec::Exec::new(m, cfg);
    ex.sol.budget = budget;
    ex.sol.dump = dump;
    ex.sol.deadline = Some(std::time::Instant::now() + std::time::Duration::from_secs_f64(ex.cfg.time + 5.0));
    ex.run(&entry);
    // coverage by source function
    let mut fns: BTreeMap<(String, String), BTreeSet<u32>> = BTreeMap::new();
    let seen: Vec<u32> = ex.dbg_seen.iter().enumerate().filter(|x| *x.1).map(|x| x.0 as u32).collect();
    for d in seen {
        let mut d = d;
        let mut n = 0;
        while d != 0 && n < 40 {
            let l = ex.m.dbg_loc(d);
            if l.0.contains(&src) {
                fns.entry((l.0.clone(), l.1.clone())).or_default().insert(l.2);
            }
            d = ex.m.dbg_inlined_at(d).unwrap_or(0);
            n += 1;
        }
    }
    let s = &ex.sol.st;
    let mut o = String::new();
    let _ = write!(
        o,
        "{{\"entry\":{},\"params\":{:?},\"paths\":{},\"paths_ok\":{},\"paths_infeasible\":{},\"paths_assumed_out\":{},\"forks\":{},\"insts\":{},\"longest_path\":{},\"checks\":{},\"checks_solver\":{},\"sched_points\":{},\"leaked\":{},\"ir_functions\":{},\"wall_s\":{:.3},",
        js(&entry),
        ex.cfg.params,
        ex.paths,
        ex.paths_ok,
        ex.paths_infeasible,
        ex.paths_assumed_out,
        ex.forks,
        ex.insts,
        ex.longest,
        ex.checks,
        ex.checks_solver,
        ex.sched_points,
        ex.leaked,
        ex.funcs_exec.len(),
        t0.elapsed().as_secs_f64()
    );
    let _ = write!(
        o,
        "\"solver\":{{\"queries\":{},\"cached\":{},\"by_model\":{},\"by_interval\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"int_mode\":{},\"bv_mode\":{},\"bad_models\":{},\"secs\":{:.3},\"max_secs\":{:.3}}},",
        s.queries, s.cached, s.by_model, s.by_interval, s.sat, s.unsat, s.unknown, s.int_mode, s.bv_mode, s.bad_models, s.secs, s.max_secs
    );
    o.push_str("\"reach\":{");
    o.push_str(&ex.reach.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(","));
    o.push_str("},\"incomplete\":{");
    o.push_str(&ex.incomplete.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
    o.push_str("},\"functions\":[");
    o.push_str(&fns.iter().map(|((f, n), l)| format!("{{\"file\":{},\"fn\":{},\"lines\":{}}}", js(f), js(n), l.len())).collect::<Vec<_>>().join(","));
    o.push_str("],\"samples\":[");
    o.push_str(&ex.samples.iter().map(|s| format!("{{{}}}", s.iter().map(|(n, v)| format!("{}:{}", js(n), js(&v.to_string()))).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(","));
    o.push_str("],\"violations\":[");
    let vs: Vec<String> = ex
        .viol
        .iter()
        .map(|v| {
            format!(
                "{{\"kind\":{},\"msg\":{},\"key\":{},\"stack\":[{}],\"inputs\":[{}],\"notes\":[{}]}}",
                js(&v.kind),
                js(&v.msg),
                js(&v.key),
                v.stack.iter().take(16).map(|x| js(x)).collect::<Vec<_>>().join(","),
                v.inputs.iter().map(|(n, w, x)| format!("[{},{},\"{}\"]", js(n), w, x)).collect::<Vec<_>>().join(","),
                v.notes.iter().map(|(n, x)| format!("[{},\"{}\"]", n, x)).collect::<Vec<_>>().join(",")
            )
        })
        .collect();
    o.push_str(&vs.join(","));
    o.push_str("]}");
    if out.is_empty() {
        println!("{}", o);
    } else {
        std::fs::write(&out, &o).unwrap();
    }
    if !ex.viol.is_empty() {
        1
    } else if !ex.incomplete.is_empty() {
        2
    } else {
        0
    }
}
