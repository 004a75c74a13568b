mod exec;
mod expr;
mod ir;
mod solver;
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o
}

fn inputs_text(v: &[(String, u8, u128)]) -> String {
    let mut s = String::new();
    for (n, w, x) in v {
        let _ = writeln!(s, "i {} {} {:x}", n, w, x);
    }
    s
}

fn main() {
    let mut args = std::env::args().skip(1);
    let mut ll = String::new();
    let mut entry = String::new();
    let mut out = String::new();
    let mut traces = String::new();
    let mut cfg = exec::Cfg {
        max_time: 300.0,
        max_paths: u64::MAX,
        max_steps: 200_000_000,
        max_traces: 64,
        max_viol: 4,
        verbose: false,
        args: vec![],
    };
    let mut st_ms = 20000;
    while let Some(a) = args.next() {
        let mut nx = || args.next().expect("arg");
        match a.as_str() {
            "--ll" => ll = nx(),
            "--entry" => entry = nx(),
            "--out" => out = nx(),
            "--traces" => traces = nx(),
            "--time" => cfg.max_time = nx().parse().unwrap(),
            "--paths" => cfg.max_paths = nx().parse().unwrap(),
            "--steps" => cfg.max_steps = nx().parse().unwrap(),
            "--ntraces" => cfg.max_traces = nx().parse().unwrap(),
            "--nviol" => cfg.max_viol = nx().parse().unwrap(),
            "--solver-ms" => st_ms = nx().parse().unwrap(),
            "--arg" => cfg.args.push(nx().parse().unwrap()),
            "-v" => cfg.verbose = true,
            x => panic!("unknown option {}", x),
        }
    }
    let t0 = std::time::Instant::now();
    let m = ir::Module::load(&ll);
    let tl = t0.elapsed().as_secs_f64();
    let mut ex = exec::Exec::new(m, cfg, st_ms);
    let r = ex.run(&entry);
    if let Err(e) = r {
        eprintln!("engine error: {}", e);
        std::process::exit(4);
    }
    let wall = t0.elapsed().as_secs_f64();
    let mut s = String::from("{");
    let _ = write!(s, "\"entry\":\"{}\",\"args\":{:?},", esc(&entry), ex.cfg.args);
    let _ = write!(s, "\"z3\":\"{}\",", esc(&solver::Z3::version()));
    let _ = write!(
        s,
        "\"paths\":{},\"infeasible\":{},\"forks\":{},\"instructions\":{},\"branches\":{},\"symbolic_decisions\":{},\"checks\":{},\"checks_solver\":{},",
        ex.paths, ex.killed, ex.forks, ex.instrs, ex.branches, ex.sym_branches, ex.checks, ex.checks_solver
    );
    let _ = write!(
        s,
        "\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cache_hits\":{},\"model_hits\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"wall_s\":{:.3},\"load_s\":{:.3},\"exprs\":{},",
        ex.z.queries, ex.z.sat, ex.z.unsat, ex.z.unknown, ex.z.cache_hits, ex.z.model_hits, ex.z.time, ex.z.max_time, wall, tl, ex.ar.nodes.len()
    );
    let _ = write!(s, "\"max_depth\":{},", ex.max_depth);
    s.push_str("\"reach\":{");
    for (i, (k, v)) in ex.reach.iter().enumerate() {
        let _ = write!(s, "{}\"{}\":{}", if i > 0 { "," } else { "" }, esc(k), v);
    }
    s.push_str("},\"incomplete\":[");
    for (i, k) in ex.incomplete.iter().enumerate() {
        let _ = write!(s, "{}\"{}\"", if i > 0 { "," } else { "" }, esc(k));
    }
    s.push_str("],\"functions\":[");
    let mut fs: Vec<String> = ex
        .funcs_seen
        .keys()
        .map(|i| ex.m.funcs[*i as usize].name.to_string())
        .collect();
    fs.sort();
    for (i, k) in fs.iter().enumerate() {
        let _ = write!(s, "{}\"{}\"", if i > 0 { "," } else { "" }, esc(k));
    }
    s.push_str("],\"fork_sites\":{");
    let mut sites: Vec<_> = ex.fork_sites.iter().collect();
    sites.sort_by(|a, b| b.1.cmp(a.1));
    for (i, (k, v)) in sites.iter().take(15).enumerate() {
        let _ = write!(s, "{}\"{}\":{}", if i > 0 { "," } else { "" }, esc(k), v);
    }
    s.push_str("},\"violations\":[");
    for (i, v) in ex.violations.iter().enumerate() {
        let _ = write!(
            s,
            "{}{{\"kind\":\"{}\",\"msg\":\"{}\",\"stack\":[{}],\"inputs\":\"{}\"}}",
            if i > 0 { "," } else { "" },
            esc(&v.kind),
            esc(&v.msg),
            v.stack.iter().map(|x| format!("\"{}\"", esc(x))).collect::<Vec<_>>().join(","),
            esc(&inputs_text(&v.inputs))
        );
    }
    s.push_str("]}\n");
    if !traces.is_empty() {
        let mut t = String::new();
        for tr in &ex.traces {
            t.push_str("T");
            for a in &ex.cfg.args {
                let _ = write!(t, " {}", a);
            }
            t.push_str("\n");
            t.push_str(&inputs_text(&tr.inputs));
            for (k, v) in &tr.outs {
                let _ = writeln!(t, "o {:x} {:x}", k, v);
            }
            for r in &tr.reach {
                let _ = writeln!(t, "r {}", r);
            }
        }
        std::fs::write(&traces, t).unwrap();
    }
    if out.is_empty() {
        print!("{}", s);
    } else {
        std::fs::write(&out, s).unwrap();
    }
}
