mod exec;
mod expr;
mod sha256;
mod solver;
mod wasm;
use exec::*;
use std::collections::{BTreeMap, VecDeque};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

struct Shared {
    queue: VecDeque<Task>,
    idle: usize,
    done: bool,
    results: Vec<Out>,
    stop: bool,
}
struct Out {
    cnt: Counts,
    st: solver::Stats,
    viol: Vec<Violation>,
    visited: Vec<bool>,
    covers: BTreeMap<String, u64>,
    reasons: BTreeMap<String, u64>,
    samples: Vec<String>,
    nodes: usize,
    version: String,
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 || c as u32 > 126 => o += &format!("\\u{:04x}", (c as u32).min(0xffff)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut path = String::new();
    let mut harness = String::new();
    let mut threads = 8;
    let mut time = 600u64;
    let mut max_instr = 300_000_000u64;
    let mut out = String::new();
    let mut z3 = "libz3.so.4".to_string();
    let mut z3_all = false;
    let mut all = false;
    let mut verbose = false;
    let mut vector = None;
    let mut follow = false;
    let mut max_alloc = 64u64 << 20;
    let mut slow_ms = 60000;
    let mut i = 1;
    while i < a.len() {
        let v = a.get(i + 1).cloned().unwrap_or_default();
        match a[i].as_str() {
            "--harness" => harness = v,
            "--threads" => threads = v.parse().unwrap(),
            "--time" => time = v.parse().unwrap(),
            "--max-instr" => max_instr = v.parse().unwrap(),
            "--max-alloc" => max_alloc = v.parse().unwrap(),
            "--slow-ms" => slow_ms = v.parse().unwrap(),
            "--out" => out = v,
            "--z3" => z3 = v,
            "--vector" | "--follow" => {
                follow = a[i] == "--follow";
                threads = 1;
                vector = Some(std::fs::read_to_string(&v).expect("vector").split_whitespace().map(|x| x.parse().unwrap()).collect());
            }
            "--z3-all" => {
                z3_all = true;
                i += 1;
                continue;
            }
            "--all" => {
                all = true;
                i += 1;
                continue;
            }
            "--verbose" => {
                verbose = true;
                i += 1;
                continue;
            }
            p => {
                path = p.to_string();
                i += 1;
                continue;
            }
        }
        i += 2;
    }
    let data = std::fs::read(&path).expect("module");
    let m = Arc::new(wasm::parse(&data));
    if harness.is_empty() {
        let mut n: Vec<_> = m.exports.keys().collect();
        n.sort();
        for e in n {
            println!("{e}");
        }
        return;
    }
    let o = Arc::new(Opts { harness: harness.clone(), max_instr, z3_all, max_alloc, verbose, vector, follow });
    let sh = Arc::new((Mutex::new(Shared { queue: VecDeque::new(), idle: 0, done: false, results: vec![], stop: false }), Condvar::new()));
    sh.0.lock().unwrap().queue.push_back(Task { trace: vec![], model: vec![] });
    let t0 = Instant::now();
    let deadline = t0 + Duration::from_secs(time);
    let mut hs = vec![];
    for _ in 0..threads {
        let (m, o, sh, z3) = (m.clone(), o.clone(), sh.clone(), z3.clone());
        hs.push(
            std::thread::Builder::new()
                .stack_size(1 << 30)
                .spawn(move || {
                    let mut ex = Exec::new(m, o, &z3, slow_ms);
                    let (mx, cvar) = (&sh.0, &sh.1);
                    'work: loop {
                        let task = {
                            let mut g = mx.lock().unwrap();
                            loop {
                                if g.done || g.stop {
                                    break 'work;
                                }
                                if let Some(t) = g.queue.pop_front() {
                                    break t;
                                }
                                g.idle += 1;
                                if g.idle == threads {
                                    g.done = true;
                                    cvar.notify_all();
                                    break 'work;
                                }
                                g = cvar.wait(g).unwrap();
                                g.idle -= 1;
                            }
                        };
                        ex.start(task);
                        loop {
                            // an engine failure must end the whole run, not leave the others waiting
                            if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| ex.run_path())).is_err() {
                                ex.cnt.incomplete += 1;
                                *ex.reasons.entry("the executor failed".into()).or_default() += 1;
                                let mut g = mx.lock().unwrap();
                                g.stop = true;
                                cvar.notify_all();
                                break 'work;
                            }
                            {
                                let mut g = mx.lock().unwrap();
                                if (!ex.viol.is_empty() && !all) || Instant::now() > deadline {
                                    if Instant::now() > deadline {
                                        *ex.reasons.entry("time limit reached".into()).or_default() += 1;
                                        ex.cnt.incomplete += 1;
                                    }
                                    g.stop = true;
                                    cvar.notify_all();
                                }
                                if g.stop {
                                    break 'work;
                                }
                                while g.idle > g.queue.len() && ex.pending.len() > 1 {
                                    g.queue.push_back(ex.give().unwrap());
                                    cvar.notify_one();
                                }
                            }
                            if !ex.next() {
                                break;
                            }
                        }
                    }
                    let out = Out {
                        cnt: ex.cnt.clone(),
                        st: ex.s.st.clone(),
                        viol: std::mem::take(&mut ex.viol),
                        visited: std::mem::take(&mut ex.visited),
                        covers: std::mem::take(&mut ex.covers),
                        reasons: std::mem::take(&mut ex.reasons),
                        samples: std::mem::take(&mut ex.samples),
                        nodes: ex.x.n.len(),
                        version: ex.s.version.clone(),
                    };
                    mx.lock().unwrap().results.push(out);
                    std::mem::forget(ex);
                })
                .unwrap(),
        );
    }
    let mut crashed = 0;
    for h in hs {
        if h.join().is_err() {
            crashed += 1;
            let mut g = sh.0.lock().unwrap_or_else(|e| e.into_inner());
            g.stop = true;
            sh.1.notify_all();
        }
    }
    let g = sh.0.lock().unwrap_or_else(|e| e.into_inner());
    let mut c = Counts::default();
    let mut s = solver::Stats::default();
    let mut viol: Vec<Violation> = vec![];
    let mut covers: BTreeMap<String, u64> = BTreeMap::new();
    let mut reasons: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples = vec![];
    let mut visited = vec![false; m.functype.len()];
    let mut nodes = 0;
    let mut version = String::new();
    for r in &g.results {
        macro_rules! sum { ($($f:ident),*) => { $(c.$f += r.cnt.$f;)* } }
        sum!(paths, killed, incomplete, checks, checks_const, checks_solver, branches, forks, dom_decisions, instrs, hash_apps, hash_sym, values);
        c.max_sym = c.max_sym.max(r.cnt.max_sym);
        c.max_path_instrs = c.max_path_instrs.max(r.cnt.max_path_instrs);
        c.max_depth = c.max_depth.max(r.cnt.max_depth);
        s.queries += r.st.queries;
        s.sat += r.st.sat;
        s.unsat += r.st.unsat;
        s.unknown += r.st.unknown;
        s.time_us += r.st.time_us;
        s.cache_hits += r.st.cache_hits;
        s.slow += r.st.slow;
        for v in &r.viol {
            if !viol.iter().any(|x| x.msg == v.msg) {
                viol.push(v.clone());
            }
        }
        for (k, v) in &r.covers {
            *covers.entry(k.clone()).or_default() += v;
        }
        for (k, v) in &r.reasons {
            *reasons.entry(k.clone()).or_default() += v;
        }
        samples.extend(r.samples.iter().cloned());
        for (i, v) in r.visited.iter().enumerate() {
            visited[i] |= *v;
        }
        nodes += r.nodes;
        version = r.version.clone();
    }
    if crashed > 0 {
        c.incomplete += 1;
        reasons.insert(format!("{crashed} workers crashed"), 1);
    }
    let ok = c.incomplete == 0 && viol.is_empty() && g.done;
    let mut fnames: Vec<String> = visited.iter().enumerate().filter(|(_, v)| **v).filter_map(|(i, _)| m.names.get(&(i as u32)).cloned()).collect();
    fnames.sort();
    fnames.dedup();
    samples.truncate(24);
    let mut j = String::new();
    j += &format!("{{\"harness\":{},\"status\":{},\"wall_s\":{:.2},\n", js(&harness), js(if !viol.is_empty() { "violated" } else if ok { "holds" } else { "incomplete" }), t0.elapsed().as_secs_f64());
    j += &format!(
        "\"paths\":{},\"killed\":{},\"incomplete\":{},\"checks\":{},\"checks_by_simplification\":{},\"checks_by_solver\":{},\"branches\":{},\"forks\":{},\"byte_domain_decisions\":{},\"values\":{},\"instructions\":{},\"hash_applications\":{},\"hash_symbolic\":{},\"max_symbolic_bytes\":{},\"max_path_instructions\":{},\"max_decisions\":{},\"expr_nodes\":{},\n",
        c.paths, c.killed, c.incomplete, c.checks, c.checks_const, c.checks_solver, c.branches, c.forks, c.dom_decisions, c.values, c.instrs, c.hash_apps, c.hash_sym, c.max_sym, c.max_path_instrs, c.max_depth, nodes
    );
    j += &format!("\"solver\":{{\"name\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cache_hits\":{},\"slow\":{},\"time_s\":{:.3}}},\n", js(&version), s.queries, s.sat, s.unsat, s.unknown, s.cache_hits, s.slow, s.time_us as f64 / 1e6);
    j += &format!("\"covers\":{{{}}},\n", covers.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
    j += &format!("\"reasons\":{{{}}},\n", reasons.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
    j += &format!("\"samples\":[{}],\n", samples.iter().map(|k| js(k)).collect::<Vec<_>>().join(","));
    j += &format!("\"functions\":[{}],\n", fnames.iter().map(|k| js(k)).collect::<Vec<_>>().join(","));
    j += &format!(
        "\"violations\":[{}]}}\n",
        viol.iter()
            .map(|v| format!(
                "{{\"kind\":{},\"msg\":{},\"vector\":[{}],\"stack\":[{}]}}",
                js(&v.kind),
                js(&v.msg),
                v.vector.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","),
                v.stack.iter().map(|x| js(x)).collect::<Vec<_>>().join(",")
            ))
            .collect::<Vec<_>>()
            .join(",\n")
    );
    if out.is_empty() {
        println!("{j}");
    } else {
        std::fs::write(&out, j).unwrap();
    }
    std::process::exit(if !viol.is_empty() { 1 } else if ok { 0 } else { 2 });
}
