mod exec;
mod expr;
mod ir;
mod lin;
mod z3;

use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn jmap(m: &BTreeMap<String, u64>) -> String {
    let v: Vec<String> = m.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect();
    format!("{{{}}}", v.join(", "))
}

fn jrep(r: &exec::Report) -> String {
    let l = |v: &[u64]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
    format!(
        "{{\"kind\": {}, \"msg\": {}, \"end\": {}, \"inputs\": [{}], \"obs\": [{}]}}",
        js(&r.kind),
        js(&r.msg),
        js(&r.end),
        l(&r.inputs),
        l(&r.obs)
    )
}

fn main() {
    // deep recursion on long ite chains: run on a big stack
    let th = std::thread::Builder::new()
        .stack_size(1 << 30)
        .spawn(move || {
            let args: Vec<String> = std::env::args().collect();
            let get = |k: &str| args.iter().position(|a| a == k).map(|i| args[i + 1].clone());
            let ir = get("--ir").expect("--ir");
            let entry = get("--entry").expect("--entry");
            let num = |k: &str, d: f64| get(k).map(|x| x.parse::<f64>().unwrap()).unwrap_or(d);
            let repo = get("--repo").unwrap_or("/repo".into());
            let t0 = std::time::Instant::now();
            let m = match ir::Module::load(&ir) {
                Ok(m) => m,
                Err(e) => {
                    eprintln!("symex: cannot load {}: {}", ir, e);
                    std::process::exit(2);
                }
            };
            let cfg = exec::Cfg {
                timeout: num("--timeout", 60.0),
                witnesses: num("--witnesses", 20.0) as usize,
                seed: num("--seed", 1.0) as u64,
                max_viol: num("--max-viol", 12.0) as usize,
                fmt: args.iter().any(|a| a == "--fmt"),
                pure_z3: args.iter().any(|a| a == "--pure-z3"),
                max_steps: num("--max-steps", 2e8) as u64,
                dump_props: num("--dump-props", 0.0) as usize,
                solver_ms: num("--solver-ms", 20000.0) as u32,
                tier: num("--tier", 0.0) as u64,
                shard: get("--shard")
                    .map(|x| x.split_once('/').map(|(a, b)| (a.parse().unwrap(), b.parse().unwrap())).unwrap())
                    .unwrap_or((0, 1)),
            };
            let load = t0.elapsed().as_secs_f64();
            let mut e = exec::Exec::new(&m, cfg);
            if let Err(x) = e.run(&entry) {
                eprintln!("symex: {}", x);
                std::process::exit(2);
            }
            // coverage of repository source
            let mut fns: BTreeMap<String, BTreeSet<u32>> = BTreeMap::new();
            let mut seen = std::collections::HashSet::new();
            for (fi, b) in e.covered.iter() {
                let f = &e.cov_funcs[*fi];
                for ins in &f.blocks[*b as usize].ins {
                    if ins.dbg != 0 && seen.insert(ins.dbg) {
                        if let Some((file, name, line)) = m.locate(ins.dbg) {
                            if file.starts_with(&repo) {
                                let rel = file[repo.len()..].trim_start_matches('/').to_string();
                                fns.entry(format!("{} {}", rel, name)).or_default().insert(line);
                            }
                        }
                    }
                }
            }
            let cov: Vec<String> = fns
                .iter()
                .map(|(k, v)| format!("{}: [{}]", js(k), v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")))
                .collect();
            let s = &e.st;
            let mut o = String::new();
            let _ = writeln!(o, "{{\"entry\": {},", js(&entry));
            let _ = writeln!(o, " \"z3\": {},", js(&z3::version()));
            let _ = writeln!(o, " \"paths\": {}, \"forks\": {}, \"instructions\": {},", s.paths, s.forks, s.instrs);
            let _ = writeln!(o, " \"ends\": {},", jmap(&s.ends));
            let _ = writeln!(
                o,
                " \"branches_symbolic\": {}, \"decided_by_byte_domain\": {}, \"decided_by_model\": {}, \"query_cache_hits\": {},",
                s.branch_sym, s.unary_decided, s.model_hits, s.cache_hits
            );
            let _ = writeln!(
                o,
                " \"solver_queries\": {}, \"solver_seconds\": {:.3}, \"solver_unknown\": {},",
                e.z3.n, e.z3.time, e.z3.unknown
            );
            let _ = writeln!(
                o,
                " \"props\": {}, \"props_folded\": {}, \"props_unsat\": {}, \"props_sat\": {}, \"props_unknown\": {},",
                s.prop_evals, s.prop_folded, s.prop_unsat, s.prop_sat, s.prop_unknown
            );
            let _ = writeln!(o, " \"prop_messages\": {},", jmap(&e.prop_msgs));
            let _ = writeln!(o, " \"max_path_steps\": {}, \"max_constraints\": {}, \"nodes\": {},", s.max_path_steps, s.max_cons, e.ctx.nodes.len());
            let r: BTreeMap<String, u64> = e.reach.iter().map(|(k, v)| (k.to_string(), *v)).collect();
            let _ = writeln!(o, " \"reach\": {},", jmap(&r));
            let _ = writeln!(o, " \"incomplete\": {},", jmap(&e.incomplete));
            let _ = writeln!(o, " \"functions_executed\": {},", e.funcs_run.len());
            let _ = writeln!(o, " \"repo_functions\": {{{}}},", cov.join(", "));
            let v: Vec<String> = e.viol.iter().map(jrep).collect();
            let _ = writeln!(o, " \"violations\": [{}],", v.join(",\n   "));
            let w: Vec<String> = e.wit.iter().map(jrep).collect();
            let _ = writeln!(o, " \"witnesses\": [{}],", w.join(",\n   "));
            let d: Vec<String> = e.dumps.iter().map(|(r, q)| format!("{{\"result\": {}, \"smt2\": {}}}", js(r), js(q))).collect();
            let _ = writeln!(o, " \"dumps\": [{}],", d.join(",\n   "));
            let _ = writeln!(o, " \"load_seconds\": {:.3}, \"wall_seconds\": {:.3}}}", load, t0.elapsed().as_secs_f64());
            match get("--out") {
                Some(p) => std::fs::write(p, o).unwrap(),
                None => print!("{}", o),
            }
        })
        .unwrap();
    let ok = th.join().is_ok();
    // skip destructors of the (large) term tables
    std::process::exit(if ok { 0 } else { 2 });
}
