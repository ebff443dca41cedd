mod exec;
mod expr;
mod ll;
mod mem;
mod solver;

use std::fmt::Write as _;
use std::sync::atomic::Ordering::Relaxed;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn vals(v: &[(u8, u128)]) -> String {
    let l: Vec<String> = v.iter().map(|(c, x)| format!("[{},\"{:x}\"]", c, x)).collect();
    format!("[{}]", l.join(","))
}
fn list(v: &[u32]) -> String {
    let l: Vec<String> = v.iter().map(|x| x.to_string()).collect();
    format!("[{}]", l.join(","))
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let opt = |k: &str, d: &str| -> String {
        args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned().unwrap_or_else(|| d.to_string())
    };
    let file = &args[1];
    let entry = &args[2];
    let src = std::fs::read_to_string(file).expect("cannot read the IR");
    let m = ll::Module::parse(src);
    let fi = match m.fidx.get(entry.as_str()) {
        Some(f) => *f,
        None => {
            eprintln!("no function {}", entry);
            std::process::exit(2);
        }
    };
    let cfg = exec::Cfg {
        max_steps: opt("--steps", "4000000").parse().unwrap(),
        max_depth: opt("--depth", "300").parse().unwrap(),
        max_viol: opt("--viol", "8").parse().unwrap(),
        time: opt("--time", "600").parse().unwrap(),
        grace: opt("--grace", "3000").parse().unwrap(),
        samples: opt("--samples", "40").parse().unwrap(),
        threads: opt("--threads", "8").parse().unwrap(),
        params: opt("--params", "").split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect(),
    };
    let run = exec::Run::new(&m, fi, opt("--z3", "z3"), cfg);
    run.go();
    let c = &run.cnt;
    let s = &run.sh.stats;
    let errors = run.errors.lock().unwrap();
    let found = run.found.lock().unwrap();
    let status = if !found.is_empty() {
        "violation"
    } else if !errors.is_empty() {
        "error"
    } else if run.timed_out.load(Relaxed) {
        "timeout"
    } else {
        "complete"
    };
    let mut o = String::from("{\n");
    let _ = writeln!(o, " \"status\": {},", js(status));
    let _ = writeln!(o, " \"entry\": {},", js(entry));
    let _ = writeln!(o, " \"wall_s\": {:.3},", run.t0.elapsed().as_secs_f64());
    let _ = writeln!(o, " \"timed_out\": {},", run.timed_out.load(Relaxed));
    for (k, v) in [
        ("paths_completed", &c.done),
        ("paths_panicked", &c.panicked),
        ("paths_assumed_away", &c.assumed),
        ("paths_infeasible", &c.dead),
        ("forks", &c.forks),
        ("instructions", &c.instrs),
        ("assertions", &c.asserts),
        ("assertions_by_solver", &c.asserts_solver),
        ("concretisations", &c.concretised),
        ("max_path_instructions", &c.max_path_instrs),
        ("max_symbolic_variables", &c.max_vars),
        ("donated", &c.donated),
        ("paths_abandoned", &c.abandoned),
        ("solver_queries", &s.queries),
        ("cache_hits", &s.hits),
        ("sat", &s.sat),
        ("unsat", &s.unsat),
    ] {
        let _ = writeln!(o, " \"{}\": {},", k, v.load(Relaxed));
    }
    let _ = writeln!(o, " \"solver_s\": {:.3},", s.nanos.load(Relaxed) as f64 / 1e9);
    let _ = writeln!(o, " \"max_query_s\": {:.3},", s.max_nanos.load(Relaxed) as f64 / 1e9);
    for (n, m) in [("reach", &run.reach), ("assert_counts", &run.asserts)] {
        let m = m.lock().unwrap();
        let l: Vec<String> = m.iter().map(|(k, v)| format!("\"{}\": {}", k, v)).collect();
        let _ = writeln!(o, " \"{}\": {{{}}},", n, l.join(", "));
    }
    {
        let m = run.panics.lock().unwrap();
        let l: Vec<String> = m.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect();
        let _ = writeln!(o, " \"panics\": {{{}}},", l.join(", "));
    }
    {
        let f = run.funcs.lock().unwrap();
        let mut l: Vec<String> = f.iter().map(|i| js(&m.funcs[*i as usize].name)).collect();
        l.sort();
        let _ = writeln!(o, " \"functions\": [{}],", l.join(","));
    }
    let l: Vec<String> = errors.iter().map(|e| js(e)).collect();
    let _ = writeln!(o, " \"errors\": [{}],", l.join(","));
    let l: Vec<String> = found
        .iter()
        .map(|f| {
            format!(
                "{{\"kind\":{},\"id\":{},\"msg\":{},\"reach\":{},\"vals\":{}}}",
                js(f.kind),
                f.id,
                js(&f.msg),
                list(&f.reach),
                vals(&f.vals)
            )
        })
        .collect();
    let _ = writeln!(o, " \"found\": [{}],", l.join(",\n  "));
    let sm = run.samples.lock().unwrap();
    let l: Vec<String> = sm
        .iter()
        .map(|f| format!("{{\"outcome\":{},\"reach\":{},\"vals\":{}}}", js(f.outcome), list(&f.reach), vals(&f.vals)))
        .collect();
    let _ = writeln!(o, " \"samples\": [{}]", l.join(",\n  "));
    o.push_str("}\n");
    let out = opt("--out", "-");
    if out == "-" {
        print!("{}", o);
    } else {
        std::fs::write(&out, o).unwrap();
    }
    std::process::exit(0);
}
