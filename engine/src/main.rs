//! llsym: symbolic execution of LLVM bitcode produced by rustc.
#![allow(dead_code)]
mod exec;
mod expr;
mod llvm;
mod prog;
mod solver;
mod z3;
use exec::*;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::io::Write as _;
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

struct Shared {
    queue: Mutex<(Vec<Item>, usize, bool)>, // items, active workers, stop
    cv: Condvar,
}

#[derive(Default)]
struct Agg {
    paths: u64,
    done: u64,
    infeasible: u64,
    steps: u64,
    max_steps: u64,
    max_branches: u32,
    max_input: usize,
    fails: Vec<(String, String, Vec<u8>, Vec<String>)>,
    fail_count: u64,
    errors: Vec<(String, Vec<u8>, Vec<String>)>,
    error_count: u64,
    covers: BTreeMap<String, u64>,
    records: Vec<(Vec<u8>, u64, Vec<u8>)>,
    seen_records: u64,
    st: solver::Stats,
    called: Vec<bool>,
    sites: BTreeMap<u64, u64>,
    merges: u64,
    max_constraints: usize,
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned());
    let num = |k: &str, d: u64| get(k).map(|x| x.parse().expect(k)).unwrap_or(d);
    let bc = get("--bc").expect("--bc");
    let entry = get("--entry").expect("--entry");
    let threads = num("--threads", 8) as usize;
    let time = num("--time", 600);
    let max_fail = num("--max-fail", 20) as usize;
    let nrec = num("--records", 400) as usize;
    let t0 = Instant::now();
    let prog = match llvm::load(&bc) {
        Ok(p) => &*Box::leak(Box::new(p)),
        Err(e) => {
            eprintln!("llsym: {e}");
            std::process::exit(2);
        }
    };
    let load_s = t0.elapsed().as_secs_f64();
    if args.iter().any(|a| a == "--list") {
        for (i, f) in prog.funcs.iter().enumerate() {
            println!("{i} {} regs={} code={} decl={}", f.name, f.nregs, f.code.len(), f.decl);
        }
        for m in &prog.msgs {
            println!("unsupported: {m}");
        }
        return;
    }
    let Some(&ef) = prog.fmap.get(&entry) else {
        eprintln!("llsym: no function {entry}");
        std::process::exit(2);
    };
    let pats: Vec<String> = get("--merge")
        .map(|f| {
            std::fs::read_to_string(f)
                .unwrap()
                .lines()
                .map(|l| l.trim().to_string())
                .filter(|l| !l.is_empty() && !l.starts_with('#'))
                .collect()
        })
        .unwrap_or_default();
    let mergeable: Vec<bool> = prog
        .funcs
        .iter()
        .map(|f| {
            !f.decl
                && pats.iter().any(|p| {
                    // all space-separated parts must occur in the symbol name
                    p.split_whitespace().all(|x| f.name.contains(x))
                })
        })
        .collect();
    let mergeable = Arc::new(mergeable);
    let cfg = Arc::new(Config {
        fuel: num("--fuel", 200_000_000),
        split_sel: !std::env::args().any(|a| a == "--merge-select"),
        max_input: num("--max-input", 128) as usize,
        trace: args.iter().any(|a| a == "--selfcheck"),
        merge: !pats.is_empty(),
    });
    let cache = solver::SharedCache::new();
    let init = match get("--input") {
        // run a single concrete input (debugging and engine self-tests)
        Some(h) => {
            let b: Vec<u8> = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
            Item { model: b, bound: u32::MAX, check: 0 }
        }
        None => Item { model: vec![], bound: 0, check: 0 },
    };
    let sh = Arc::new(Shared { queue: Mutex::new((vec![init], 0, false)), cv: Condvar::new() });
    let agg = Arc::new(Mutex::new(Agg::default()));
    let deadline = t0 + Duration::from_secs(time);
    let mut hs = vec![];
    let stopped = Arc::new(Mutex::new(String::new()));
    for tid in 0..threads {
        let (prog, cache, cfg, sh, agg, mergeable, stopped) = (
            prog,
            cache.clone(),
            cfg.clone(),
            sh.clone(),
            agg.clone(),
            mergeable.clone(),
            stopped.clone(),
        );
        hs.push(
            std::thread::Builder::new()
                .stack_size(512 << 20)
                .spawn(move || {
                    let mut w = Worker::new(prog, cache, cfg, mergeable);
                    let mut rng = 0x9E3779B97F4A7C15u64 ^ (tid as u64 + 1);
                    loop {
                        let item = {
                            let mut q = sh.queue.lock().unwrap();
                            loop {
                                if q.2 {
                                    break None;
                                }
                                if let Some(i) = q.0.pop() {
                                    q.1 += 1;
                                    break Some(i);
                                }
                                if q.1 == 0 {
                                    break None;
                                }
                                let (g, _) = sh.cv.wait_timeout(q, Duration::from_millis(50)).unwrap();
                                q = g;
                            }
                        };
                        let Some(item) = item else {
                            sh.cv.notify_all();
                            break;
                        };
                        let r = w.run(ef, &item);
                        let mut stop = None;
                        {
                            let mut a = agg.lock().unwrap();
                            a.paths += 1;
                            a.steps += r.steps;
                            a.max_steps = a.max_steps.max(r.steps);
                            a.max_branches = a.max_branches.max(r.branches);
                            a.max_input = a.max_input.max(r.input.len());
                            for c in &r.covers {
                                *a.covers.entry(c.clone()).or_insert(0) += 1;
                            }
                            match &r.outcome {
                                Outcome::Done => {
                                    a.done += 1;
                                    a.seen_records += 1;
                                    let rec = (r.input.clone(), r.emit, r.emitted.clone());
                                    if a.records.len() < nrec {
                                        a.records.push(rec);
                                    } else if nrec > 0 {
                                        rng ^= rng << 13;
                                        rng ^= rng >> 7;
                                        rng ^= rng << 17;
                                        let j = (rng % a.seen_records) as usize;
                                        if j < nrec {
                                            a.records[j] = rec;
                                        }
                                    }
                                }
                                Outcome::Infeasible => a.infeasible += 1,
                                Outcome::Error(m) => {
                                    a.error_count += 1;
                                    if a.errors.len() < 20 {
                                        a.errors.push((m.clone(), r.input.clone(), r.trace.clone()));
                                    }
                                    if a.error_count >= 20 {
                                        stop = Some("errors");
                                    }
                                }
                                o => {
                                    let (k, m) = match o {
                                        Outcome::Fail(m) => ("fail", m.clone()),
                                        Outcome::Panic(m) => ("panic", m.clone()),
                                        Outcome::Abort(m) => ("abort", m.clone()),
                                        _ => ("fuel", "step limit reached".to_string()),
                                    };
                                    a.fail_count += 1;
                                    a.fails.push((k.into(), m, r.input.clone(), r.trace.clone()));
                                    if a.fails.len() >= max_fail {
                                        stop = Some("max-fail");
                                    }
                                }
                            }
                        }
                        if Instant::now() > deadline {
                            stop = Some("time");
                        }
                        let mut q = sh.queue.lock().unwrap();
                        q.0.extend(r.new_items);
                        q.1 -= 1;
                        if let Some(s) = stop {
                            if !q.2 {
                                // stopping with an empty queue and no one active is still complete
                                if !(q.0.is_empty() && q.1 == 0) || s != "time" {
                                    *stopped.lock().unwrap() = s.into();
                                }
                                q.2 = true;
                            }
                        }
                        sh.cv.notify_all();
                    }
                    let mut a = agg.lock().unwrap();
                    a.st.add(&w.s.st);
                    a.merges += w.merges;
                    a.max_constraints = a.max_constraints.max(w.s.max_constraints.max(w.s.nconstraints));
                    if a.called.len() < w.called.len() {
                        a.called.resize(w.called.len(), false);
                    }
                    for (i, c) in w.called.iter().enumerate() {
                        a.called[i] |= *c;
                    }
                    for (k, v) in &w.branch_sites {
                        *a.sites.entry(*k).or_insert(0) += v;
                    }
                })
                .unwrap(),
        );
    }
    let verbose = args.iter().any(|a| a == "-v");
    if verbose {
        let (sh, agg) = (sh.clone(), agg.clone());
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_secs(5));
            let q = sh.queue.lock().unwrap().0.len();
            let a = agg.lock().unwrap();
            eprintln!(
                "  [{:.0}s] paths {} (done {}) queue {} fails {} errors {} steps/path {}",
                t0.elapsed().as_secs_f64(),
                a.paths,
                a.done,
                q,
                a.fail_count,
                a.error_count,
                a.steps / a.paths.max(1)
            );
        });
    }
    for h in hs {
        if h.join().is_err() {
            eprintln!("llsym: worker crashed");
            std::process::exit(2);
        }
    }
    let a = agg.lock().unwrap();
    let stopped = stopped.lock().unwrap().clone();
    let mut o = String::from("{");
    let _ = write!(
        o,
        "\"entry\":{},\"complete\":{},\"stopped\":{},\"paths\":{},\"done\":{},\"infeasible\":{},\"failures_total\":{},\"errors_total\":{},",
        js(&entry),
        stopped.is_empty() && a.error_count == 0,
        js(&stopped),
        a.paths,
        a.done,
        a.infeasible,
        a.fail_count,
        a.error_count
    );
    let _ = write!(
        o,
        "\"steps\":{},\"max_steps\":{},\"max_branches\":{},\"max_input_bytes\":{},\"merges\":{},\"max_constraints\":{},\"load_s\":{:.2},\"wall_s\":{:.2},\"z3\":{},",
        a.steps, a.max_steps, a.max_branches, a.max_input, a.merges, a.max_constraints, load_s, t0.elapsed().as_secs_f64(), js(&z3::version())
    );
    let s = &a.st;
    let _ = write!(
        o,
        "\"solver\":{{\"queries\":{},\"sat_by_sets\":{},\"unsat_by_sets\":{},\"sat_cached\":{},\"unsat_cached\":{},\"z3_sat\":{},\"z3_unsat\":{},\"z3_unknown\":{},\"z3_s\":{:.3},\"z3_max_ms\":{:.1}}},",
        s.queries, s.fast_sat, s.set_unsat, s.cache_sat, s.cache_unsat, s.z3_sat, s.z3_unsat, s.z3_unknown, s.z3_us as f64 / 1e6, s.z3_max_us as f64 / 1e3
    );
    let cv: Vec<String> = a.covers.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
    let _ = write!(o, "\"covers\":{{{}}},", cv.join(","));
    let tr = |t: &[String]| t.iter().map(|x| js(x)).collect::<Vec<_>>().join(",");
    let fl: Vec<String> = a
        .fails
        .iter()
        .map(|(k, m, i, t)| {
            format!("{{\"kind\":{},\"msg\":{},\"input\":\"{}\",\"trace\":[{}]}}", js(k), js(m), hex(i), tr(t))
        })
        .collect();
    let _ = write!(o, "\"failures\":[{}],", fl.join(","));
    let el: Vec<String> = a
        .errors
        .iter()
        .map(|(m, i, t)| format!("{{\"msg\":{},\"input\":\"{}\",\"trace\":[{}]}}", js(m), hex(i), tr(t)))
        .collect();
    let _ = write!(o, "\"errors\":[{}],", el.join(","));
    let rl: Vec<String> = a
        .records
        .iter()
        .map(|(i, e, t)| {
            format!("{{\"input\":\"{}\",\"emit\":\"{:016x}\",\"out\":{}}}", hex(i), e, js(&String::from_utf8_lossy(&t[..t.len().min(400)])))
        })
        .collect();
    let _ = write!(o, "\"records\":[{}],", rl.join(","));
    let mut sites: Vec<_> = a.sites.iter().collect();
    sites.sort_by_key(|x| std::cmp::Reverse(*x.1));
    let sl: Vec<String> = sites
        .iter()
        .take(40)
        .map(|(k, v)| format!("[{},{},{}]", js(&prog.funcs[(*k >> 32) as usize].name), *k & 0xffffffff, v))
        .collect();
    let _ = write!(o, "\"fork_sites\":[{}],", sl.join(","));
    let fns: Vec<String> = a
        .called
        .iter()
        .enumerate()
        .filter(|(_, c)| **c)
        .map(|(i, _)| js(&prog.funcs[i].name))
        .collect();
    let _ = write!(o, "\"functions\":[{}]}}", fns.join(","));
    if let Some(p) = get("--out") {
        std::fs::write(p, &o).unwrap();
    } else {
        let _ = writeln!(std::io::stdout(), "{o}");
    }
    let code = if a.error_count > 0 {
        2
    } else if a.fail_count > 0 {
        1
    } else if !stopped.is_empty() {
        3
    } else {
        0
    };
    std::process::exit(code);
}
