mod exec; mod expr; mod ir; mod par; mod sha; mod smt;
use exec::*;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::Ordering::*;
use std::time::{Duration, Instant};

/// What one process found, as text: one record per line, fields as hex.
fn put(f: &str, st: &Stats, vi: &[Violation], q: &smt::SmtStats, nodes: usize, err: Option<String>) {
    let h = |s: &str| format!("_{}", hex(s.as_bytes()));
    let iv = |x: &[(String, Vec<u8>)]| x.iter().map(|(n, b)| format!(" {} _{}", h(n), hex(b))).collect::<String>();
    let mut o = format!("n {} {} {} {} {} {} {} {} {} {} {} {} {} {} {} {} {} {} {}\n", st.paths, st.infeasible, st.forks, st.steps, st.max_path_steps, st.max_pc, st.checks, st.checks_const,
        st.checks_solver, st.hash_calls, st.hash_sym, st.memo_hits, st.max_inputs_bits, q.queries, q.sat, q.unsat, q.cached, nodes, 0);
    o += &format!("t {} {}\n", q.secs, q.max_secs);
    for (k, v) in &st.checks_by_id { o += &format!("k {} {} {}\n", h(k), v.0, v.1); }
    for (k, v) in &st.covers { o += &format!("c {} {}\n", h(k), v); }
    for x in &st.funcs { o += &format!("f {}\n", x); }
    for (c, x) in &st.samples { o += &format!("s {} {}{}\n", c.len(), c.iter().map(|c| h(c)).collect::<Vec<_>>().join(" "), iv(x)); }
    for v in vi { o += &format!("v {} {} {} {} {}{}\n", h(&v.id), h(&v.kind), h(&v.detail), v.stack.len(), v.stack.iter().map(|c| h(c)).collect::<Vec<_>>().join(" "), iv(&v.inputs)); }
    if let Some(e) = err { o += &format!("e {}\n", h(&e)); }
    let t = format!("{}.tmp", f);
    std::fs::write(&t, o).and_then(|_| std::fs::rename(&t, f)).unwrap();
}
fn get(text: &str, st: &mut Stats, vi: &mut Vec<Violation>, q: &mut smt::SmtStats, nodes: &mut usize, err: &mut Option<String>) {
    let ub = |s: &str| -> Vec<u8> { (1..s.len()).step_by(2).map(|i| u8::from_str_radix(&s[i..i + 2], 16).unwrap()).collect() };
    let us = |s: &str| String::from_utf8_lossy(&ub(s)).into_owned();
    let iv = |x: &[&str]| -> Vec<(String, Vec<u8>)> { x.chunks(2).map(|c| (us(c[0]), ub(c[1]))).collect() };
    for l in text.lines() {
        let w: Vec<&str> = l.split_whitespace().collect();
        let n = |i: usize| -> u64 { w[i].parse().unwrap() };
        match w[0] {
            "n" => {
                st.paths += n(1); st.infeasible += n(2); st.forks += n(3); st.steps += n(4);
                st.max_path_steps = st.max_path_steps.max(n(5)); st.max_pc = st.max_pc.max(n(6));
                st.checks += n(7); st.checks_const += n(8); st.checks_solver += n(9);
                st.hash_calls += n(10); st.hash_sym += n(11); st.memo_hits += n(12); st.max_inputs_bits = st.max_inputs_bits.max(n(13));
                q.queries += n(14); q.sat += n(15); q.unsat += n(16); q.cached += n(17); *nodes += n(18) as usize;
            }
            "t" => { q.secs += w[1].parse::<f64>().unwrap(); q.max_secs = q.max_secs.max(w[2].parse().unwrap()); }
            "k" => { let e = st.checks_by_id.entry(us(w[1])).or_default(); e.0 += n(2); e.1 += n(3); }
            "c" => { *st.covers.entry(us(w[1])).or_default() += n(2); }
            "f" => { st.funcs.insert(n(1) as usize); }
            "s" => { let k = n(1) as usize; st.samples.push((w[2..2 + k].iter().map(|x| us(x)).collect(), iv(&w[2 + k..]))); }
            "v" => { let k = n(4) as usize; vi.push(Violation { id: us(w[1]), kind: us(w[2]), detail: us(w[3]), stack: w[5..5 + k].iter().map(|x| us(x)).collect(), inputs: iv(&w[5 + k..]) }); }
            "e" => { err.get_or_insert(us(w[1])); }
            _ => {}
        }
    }
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => {} c => o.push(c) } }
    o.push('"');
    o
}
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut file = None;
    let mut entry = None;
    let mut prop = None;
    let mut jobs = 8usize;
    let mut solver = "z3 -in".to_string();
    let mut timeout_ms = 60_000u64;
    let mut max_steps = 20_000_000u64;
    let mut budget = 800u64;
    let mut out = None;
    let mut max_viol = 1usize;
    let mut i = 1;
    while i < args.len() {
        let nx = || args.get(i + 1).cloned().unwrap_or_else(|| panic!("missing value for {}", args[i]));
        match args[i].as_str() {
            "--entry" => { entry = Some(nx()); i += 1 }
            "--prop" => { prop = Some(nx()); i += 1 }
            "--jobs" => { jobs = nx().parse().unwrap(); i += 1 }
            "--solver" => { solver = nx(); i += 1 }
            "--timeout-ms" => { timeout_ms = nx().parse().unwrap(); i += 1 }
            "--max-steps" => { max_steps = nx().parse().unwrap(); i += 1 }
            "--budget" => { budget = nx().parse().unwrap(); i += 1 }
            "--out" => { out = Some(nx()); i += 1 }
            "--max-viol" => { max_viol = nx().parse().unwrap(); i += 1 }
            f => file = Some(f.to_string()),
        }
        i += 1;
    }
    let t0 = Instant::now();
    let deadline = t0 + Duration::from_secs(budget);
    let text = std::fs::read_to_string(file.expect("module")).expect("read module");
    let m: &'static ir::Module = Box::leak(Box::new(ir::Module::load(text)));
    let hooks: &'static Vec<u8> = Box::leak(Box::new(compute_hooks(m)));
    let cfg: &'static Config = Box::leak(Box::new(Config { prop, solver: solver.clone(), timeout_ms, max_steps, max_viol, max_violations_per_id: max_viol, deadline }));
    let entry: &'static str = Box::leak(entry.expect("--entry").into_boxed_str());
    let load_s = t0.elapsed().as_secs_f64();
    let sh = par::Shm::new(jobs as i32);
    let dir = std::env::temp_dir().join(format!("rsx-{}", std::process::id()));
    std::fs::create_dir_all(&dir).expect("scratch directory");
    let root = std::process::id();
    let dir2 = dir.clone();
    let worker = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
        let mut ex = Exec::new(m, hooks, cfg, sh);
        let mut err = None;
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let s = ex.initial(entry);
            ex.stack.push(s);
            while let Some(s) = ex.stack.pop() {
                let nv = ex.viols.len();
                if let Err(e) = ex.run(s) { err = Some(e); }
                if Instant::now() > deadline && err.is_none() { err = Some("time budget exhausted before the exploration finished".to_string()); }
                let new = (ex.viols.len().saturating_sub(nv)) as u32;
                if new > 0 && sh.viols.fetch_add(new, SeqCst) + new >= cfg.max_viol as u32 { sh.stop.store(true, SeqCst); }
                if err.is_some() { sh.stop.store(true, SeqCst); }
                if sh.stop.load(SeqCst) { break; }
            }
        }));
        if let Err(e) = r {
            err = Some(format!("engine panic: {}", e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()));
            sh.stop.store(true, SeqCst);
        }
        if let Some(p) = &ex.prof {
            let mut v: Vec<_> = p.iter().enumerate().collect();
            v.sort_by_key(|x| std::cmp::Reverse(x.1 .0));
            for (f, n) in v.iter().take(25) { eprintln!("self {:>12} {}", n.0, m.funcs[*f].name); }
            v.sort_by_key(|x| std::cmp::Reverse(x.1 .1));
            for (f, n) in v.iter().take(400) { eprintln!("incl {:>12} {}", n.1, m.funcs[*f].name); }
        }
        put(dir2.join(std::process::id().to_string()).to_str().unwrap(), &ex.stats, &ex.viols, &ex.smt.stats, ex.p.nodes.len(), err);
        drop(ex.smt);
        sh.leave();
        if std::process::id() != root { par::exit(); }
    }).unwrap();
    worker.join().unwrap();
    let mut err: Option<String> = None;
    while sh.active.load(SeqCst) > 0 {
        if Instant::now() > deadline + Duration::from_secs(90) { err = Some("a worker did not end in time".into()); break; }
        std::thread::sleep(Duration::from_millis(2));
    }
    let mut st = Stats::default();
    let mut vi: Vec<Violation> = vec![];
    let mut sm = smt::SmtStats::default();
    let mut nodes = 0;
    let mut parts = 0;
    for f in std::fs::read_dir(&dir).unwrap().flatten() {
        if f.path().extension().is_some() { continue; }
        parts += 1;
        get(&std::fs::read_to_string(f.path()).unwrap(), &mut st, &mut vi, &mut sm, &mut nodes, &mut err);
    }
    let _ = std::fs::remove_dir_all(&dir);
    if err.is_none() && parts != sh.procs.load(SeqCst) { err = Some("a worker was lost".into()); }
    let mut j = String::from("{\n");
    j += &format!(" \"entry\": {},\n \"error\": {},\n", esc(entry), err.as_ref().map(|e| esc(e)).unwrap_or("null".into()));
    j += &format!(" \"paths\": {}, \"infeasible\": {}, \"forks\": {}, \"processes\": {},\n", st.paths, st.infeasible, st.forks, parts);
    j += &format!(" \"steps\": {}, \"max_path_steps\": {}, \"max_pc\": {}, \"max_input_bits\": {},\n", st.steps, st.max_path_steps, st.max_pc, st.max_inputs_bits);
    j += &format!(" \"checks\": {}, \"checks_const\": {}, \"checks_solver\": {},\n", st.checks, st.checks_const, st.checks_solver);
    j += &format!(" \"hash_calls\": {}, \"hash_sym\": {}, \"memo_hits\": {},\n", st.hash_calls, st.hash_sym, st.memo_hits);
    j += &format!(" \"queries\": {}, \"sat\": {}, \"unsat\": {}, \"cached\": {}, \"solver_s\": {:.3}, \"solver_max_s\": {:.3}, \"solver\": {},\n", sm.queries, sm.sat, sm.unsat, sm.cached, sm.secs, sm.max_secs, esc(&solver));
    j += &format!(" \"expr_nodes\": {}, \"load_s\": {:.2}, \"wall_s\": {:.2},\n", nodes, load_s, t0.elapsed().as_secs_f64());
    let cb: BTreeMap<_, _> = st.checks_by_id;
    j += &format!(" \"checks_by_id\": {{{}}},\n", cb.iter().map(|(k, v)| format!("{}: [{}, {}]", esc(k), v.0, v.1)).collect::<Vec<_>>().join(", "));
    j += &format!(" \"covers\": {{{}}},\n", st.covers.iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect::<Vec<_>>().join(", "));
    let names: BTreeSet<&str> = st.funcs.iter().map(|f| m.funcs[*f].name.as_str()).collect();
    j += &format!(" \"nfuncs\": {}, \"funcs\": [{}],\n", names.len(), names.iter().filter(|n| n.contains("7rgbcore")).map(|n| esc(n)).collect::<Vec<_>>().join(", "));
    j += &format!(" \"samples\": [{}],\n", st.samples.iter().map(|(c, iv)| format!("{{\"covers\": [{}], \"inputs\": [{}]}}", c.iter().map(|x| esc(x)).collect::<Vec<_>>().join(", "), iv.iter().map(|(n, b)| format!("[{}, \"{}\"]", esc(n), hex(b))).collect::<Vec<_>>().join(", "))).collect::<Vec<_>>().join(",\n  "));
    j += &format!(" \"violations\": [{}]\n}}\n", vi.iter().map(|v| format!("{{\"id\": {}, \"kind\": {}, \"detail\": {}, \"stack\": [{}], \"inputs\": [{}]}}", esc(&v.id), esc(&v.kind), esc(&v.detail), v.stack.iter().map(|x| esc(x)).collect::<Vec<_>>().join(", "), v.inputs.iter().map(|(n, b)| format!("[{}, \"{}\"]", esc(n), hex(b))).collect::<Vec<_>>().join(", "))).collect::<Vec<_>>().join(",\n"));
    match out { Some(o) => std::fs::write(o, &j).unwrap(), None => print!("{}", j) }
    if err.is_some() { eprintln!("rsx: {}", err.unwrap()); std::process::exit(2); }
    if !vi.is_empty() { std::process::exit(1); }
}
