//! zsym: bounded symbolic execution of LLVM IR with Z3 as the deciding solver.
mod exec;
mod expr;
mod hash;
mod ir;
mod mem;
mod par;
mod z3;
use exec::*;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || (c as u32) > 126 => write!(o, "\\u{:04x}", (c as u32).min(0xffff)).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jl(v: impl IntoIterator<Item = String>) -> String {
    format!("[{}]", v.into_iter().collect::<Vec<_>>().join(","))
}

fn main() {
    let child = std::thread::Builder::new().stack_size(4 << 30).spawn(real_main).unwrap();
    let code = child.join().unwrap_or(70);
    std::process::exit(code);
}

impl exec::Violation {
    pub fn json(&self) -> String {
        format!(
            "{{\"kind\":{},\"msg\":{},\"count\":{},\"stack\":{},\"inputs\":{},\"human\":{}}}",
            js(&self.kind),
            js(&self.msg),
            self.count,
            jl(self.stack.iter().map(|s| js(s))),
            js(&self.inputs),
            jl(self.human.iter().map(|s| js(s)))
        )
    }
}
fn real_main() -> i32 {
    let mut args = std::env::args().skip(1);
    let mut file = String::new();
    let mut entry = String::new();
    let mut out = String::new();
    let mut cov = String::new();
    let mut cfg = Cfg {
        max_steps: 200_000_000,
        max_time: 300.0,
        max_paths: 1_000_000,
        samples: 8,
        force: vec![],
        trace: false,
        max_fan: 5000,
        max_viol: 12,
        grace: i32::MAX,
        early: String::new(),
        par: par::Par::new(),
    };
    let mut timeout = 20_000;
    while let Some(a) = args.next() {
        let mut v = || args.next().expect("option value");
        match a.as_str() {
            "--entry" => entry = v(),
            "--out" => out = v(),
            "--max-steps" => cfg.max_steps = v().parse().unwrap(),
            "--max-time" => cfg.max_time = v().parse().unwrap(),
            "--max-paths" => cfg.max_paths = v().parse().unwrap(),
            "--max-fan" => cfg.max_fan = v().parse().unwrap(),
            "--early" => cfg.early = v(),
            "--grace" => cfg.grace = v().parse().unwrap(),
            "--max-viol" => cfg.max_viol = v().parse().unwrap(),
            "--samples" => cfg.samples = v().parse().unwrap(),
            "--solver-timeout" => timeout = v().parse().unwrap(),
            "--force" => {
                cfg.force = v().split(',').map(|s| if s == "*" { u64::MAX } else { s.parse().unwrap() }).collect()
            }
            "--slots" => cfg.par.open(&v()),
            "--workers" => cfg.par.max = v().parse().unwrap(),
            "--cov-prefix" => cov = v(),
            "--trace" => cfg.trace = true,
            "--real-hash" => exec::REAL_HASH.store(true, std::sync::atomic::Ordering::Relaxed),
            _ => file = a,
        }
    }
    let text: &'static str = Box::leak(std::fs::read_to_string(&file).expect("read IR").into_boxed_str());
    let m = ir::Module::load(text);
    let mut ex = Exec::new(m, z3::Solver::new(timeout), cfg);
    ex.run(&entry);
    // coverage
    let mut files: BTreeMap<String, BTreeSet<u32>> = Default::default();
    let mut funcs: BTreeSet<String> = Default::default();
    let mut nfun = 0;
    let mut seen: hash::FxSet<u32> = Default::default();
    for f in ex.m.funcs.iter().flatten() {
        nfun += 1;
        for b in &f.blocks {
            if !b.visited.get() {
                continue;
            }
            for &d in &b.dbg {
                if d == 0 || !seen.insert(d) {
                    continue;
                }
                // walk the inline chain
                let mut id = d;
                for _ in 0..32 {
                    if let Some((file, line)) = ex.loc(id) {
                        if !cov.is_empty() && file.starts_with(&cov) {
                            files.entry(file[cov.len()..].to_string()).or_default().insert(line);
                            if let Some(n) = ex.func_of(id) {
                                funcs.insert(n);
                            }
                        }
                    }
                    match ex.m.meta.get(&id).and_then(|t| Exec::field(t, "inlinedAt: ")) {
                        Some(n) => match n.strip_prefix('!').and_then(|s| s.parse().ok()) {
                            Some(n) => id = n,
                            None => break,
                        },
                        None => break,
                    }
                }
            }
        }
    }
    let viols = jl(ex.viols.iter().map(|v| v.json()));
    let samples = jl(ex
        .samples
        .iter()
        .map(|(i, o)| format!("{{\"inputs\":{},\"obs\":{}}}", js(i), jl(o.iter().map(|s| js(s))))));
    let s = &ex.st;
    let verdict = if !ex.viols.is_empty() {
        "violation"
    } else if !ex.incomplete.is_empty() {
        "incomplete"
    } else {
        "ok"
    };
    ex.sol.drain_log();
    let j = format!(
        "{{\"entry\":{},\"verdict\":{},\"paths\":{},\"dead_paths\":{},\"forks\":{},\"branches\":{},\"symbolic_branches\":{},\"instructions\":{},\"concretizations\":{},\"queries\":{},\"cache_hits\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_time\":{:.3},\"max_query\":{:.3},\"gf2_decided\":{},\"table_decided\":{},\"int_decided\":{},\"cross_checked\":{},\"cross_time\":{:.3},\"expr_nodes\":{},\"max_path_condition\":{},\"time\":{:.2},\"z3\":{},\"functions_parsed\":{},\"asserts\":{{{}}},\"reach\":{{{}}},\"incomplete\":{{{}}},\"violations\":{},\"samples\":{},\"repo_functions\":{},\"repo_lines\":{{{}}}}}\n",
        js(&entry),
        js(verdict),
        s.paths,
        s.dead,
        s.forks,
        s.branches,
        s.sym_branches,
        s.insts,
        s.concretizations,
        ex.sol.queries,
        ex.sol.cache_hits,
        ex.sol.sat,
        ex.sol.unsat,
        ex.sol.unknowns,
        ex.sol.time,
        ex.sol.max_time,
        expr::cx().stat_lin_decided,
        ex.sol.table_decided,
        ex.sol.int_decided,
        ex.sol.cross_checked,
        ex.sol.cross_time + ex.sol.lin_cross_time - ex.sol.cross_base,
        expr::cx().nodes.len() - ex.nodes0,
        s.max_pc,
        ex.elapsed(),
        js(&z3::Solver::version()),
        nfun,
        s.asserts.iter().map(|(k, v)| format!("{}:[{},{}]", js(k), v.0, v.1)).collect::<Vec<_>>().join(","),
        s.reach.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","),
        ex.incomplete.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","),
        viols,
        samples,
        jl(funcs.iter().map(|s| js(s))),
        files
            .iter()
            .map(|(k, v)| format!("{}:[{}]", js(k), v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")))
            .collect::<Vec<_>>()
            .join(",")
    );
    if out.is_empty() {
        print!("{}", j);
    } else {
        let name = if ex.cfg.par.child { format!("{}.{}", out, std::process::id()) } else { out };
        std::fs::write(&name, j).expect("write result");
    }
    let code = match verdict {
        "ok" => 0,
        "violation" => 1,
        _ => 2,
    };
    ex.cfg.par.finish(code)
}
