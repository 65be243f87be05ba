//! Incremental SMT solver process (SMT-LIB over a pipe), with constraint slicing and a query cache.
use crate::expr::*;
use std::collections::{HashMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::Instant;

#[derive(Default, Clone, Debug)]
pub struct SmtStats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub cached: u64,
    pub secs: f64,
    pub max_secs: f64,
}

pub struct Smt {
    cmd: String,
    io: Option<(Child, ChildStdin, BufReader<ChildStdout>)>,
    emitted: HashSet<E>,
    emitted_vars: HashSet<u32>,
    cache: HashMap<Vec<E>, Option<Vec<(u32, u128)>>>,
    pub stats: SmtStats,
    buf: String,
    pub timeout_ms: u64,
    pub dump: Option<std::fs::File>,
}

#[derive(Debug)]
pub struct Unknown(pub String);

impl Smt {
    pub fn new(cmd: &str, timeout_ms: u64) -> Smt {
        Smt { cmd: cmd.into(), io: None, emitted: HashSet::new(), emitted_vars: HashSet::new(), cache: HashMap::new(), stats: SmtStats::default(), buf: String::new(), timeout_ms, dump: None }
    }
    fn start(&mut self) {
        let parts: Vec<&str> = self.cmd.split_whitespace().collect();
        let mut child = Command::new(parts[0]).args(&parts[1..]).stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().unwrap_or_else(|e| panic!("cannot start solver {}: {}", self.cmd, e));
        let mut inp = child.stdin.take().unwrap();
        let out = BufReader::new(child.stdout.take().unwrap());
        let mut pre = String::from("(set-option :print-success false)\n(set-option :produce-models true)\n");
        if parts[0].contains("z3") { pre.push_str(&format!("(set-option :timeout {})\n", self.timeout_ms)); }
        pre.push_str("(set-logic QF_BV)\n");
        inp.write_all(pre.as_bytes()).unwrap();
        self.io = Some((child, inp, out));
    }
    /// After a fork: the solver belongs to the parent; answers known so far are kept.
    pub fn fresh(&mut self) {
        if let Some((child, inp, out)) = self.io.take() { drop(inp); drop(out); std::mem::forget(child); }
        self.emitted.clear();
        self.emitted_vars.clear();
        self.stats = SmtStats::default();
    }
    fn say(&mut self, b: &[u8]) -> Result<(), Unknown> {
        let i = &mut self.io.as_mut().unwrap().1;
        i.write_all(b).and_then(|_| i.flush()).map_err(|e| Unknown(e.to_string()))
    }

    fn emit(&mut self, p: &Pool, e: E) {
        let mut stack = vec![(e, false)];
        while let Some((x, done)) = stack.pop() {
            match p.n(x) {
                N::Const(..) => continue,
                N::Var(w, id) => {
                    if self.emitted_vars.insert(*id) {
                        self.buf.push_str(&format!("(declare-const v{} {})\n", id, Pool::sort(*w)));
                    }
                    continue;
                }
                _ => {}
            }
            if self.emitted.contains(&x) { continue; }
            if done {
                self.emitted.insert(x);
                self.buf.push_str(&format!("(define-fun e{} () {} {})\n", x, Pool::sort(p.w(x)), p.smt(x)));
            } else {
                stack.push((x, true));
                for c in children(p.n(x)) { stack.push((c, false)); }
            }
        }
    }

    fn name(p: &Pool, e: E) -> String {
        match p.n(e) {
            N::Const(_, v) => if *v == 1 { "true".into() } else { "false".into() },
            N::Var(_, id) => format!("v{}", id),
            _ => format!("e{}", e),
        }
    }

    /// Constraints of `pc` transitively sharing variables with `goal`.
    pub fn slice(p: &Pool, pc: &[E], goal: E) -> Vec<E> {
        let mut vars: HashSet<u32> = p.vars[goal as usize].iter().cloned().collect();
        let mut used = vec![false; pc.len()];
        let mut out = vec![];
        loop {
            let mut ch = false;
            for (i, c) in pc.iter().enumerate() {
                if used[i] { continue; }
                let cv = &p.vars[*c as usize];
                if cv.iter().any(|v| vars.contains(v)) {
                    used[i] = true;
                    out.push(*c);
                    for v in cv.iter() { if vars.insert(*v) { ch = true; } }
                }
            }
            if !ch { break; }
        }
        out
    }

    /// Is pc /\ goal satisfiable? Returns the assignment of the variables in the relevant slice.
    pub fn check(&mut self, p: &Pool, pc: &[E], goal: E) -> Result<Option<Vec<(u32, u128)>>, Unknown> {
        if let Some(v) = p.k(goal) { if v == 0 { return Ok(None); } }
        let mut cs = Self::slice(p, pc, goal);
        cs.push(goal);
        cs.sort_unstable();
        cs.dedup();
        if let Some(r) = self.cache.get(&cs) { self.stats.cached += 1; return Ok(r.clone()); }
        if self.io.is_none() { self.start(); }
        let t0 = Instant::now();
        self.buf.clear();
        let mut vs: HashSet<u32> = HashSet::new();
        for c in &cs { self.emit(p, *c); vs.extend(p.vars[*c as usize].iter()); }
        let mut vs: Vec<u32> = vs.into_iter().collect();
        vs.sort_unstable();
        self.buf.push_str("(push 1)\n");
        for c in &cs { self.buf.push_str(&format!("(assert {})\n", Self::name(p, *c))); }
        self.buf.push_str("(check-sat)\n");
        if let Some(f) = &mut self.dump { let _ = f.write_all(self.buf.as_bytes()); }
        let buf = std::mem::take(&mut self.buf);
        self.say(buf.as_bytes())?;
        self.buf = buf;
        let line = self.line()?;
        let r = match line.as_str() {
            "sat" => {
                self.stats.sat += 1;
                let mut m = vec![];
                if !vs.is_empty() {
                    let mut q = String::from("(get-value (");
                    for v in &vs { q.push_str(&format!("v{} ", v)); }
                    q.push_str("))\n");
                    self.say(q.as_bytes())?;
                    let txt = self.sexpr()?;
                    m = parse_model(&txt)?;
                }
                Some(m)
            }
            "unsat" => { self.stats.unsat += 1; None }
            o => return Err(Unknown(format!("solver answered {:?}", o))),
        };
        self.say(b"(pop 1)\n")?;
        if let Some(f) = &mut self.dump { let _ = f.write_all(format!("; {}\n(pop 1)\n", line).as_bytes()); }
        let dt = t0.elapsed().as_secs_f64();
        self.stats.queries += 1;
        self.stats.secs += dt;
        if dt > self.stats.max_secs { self.stats.max_secs = dt; }
        if dt > 0.2 && std::env::var_os("RSX_SLOW").is_some() {
            let f = format!("/tmp/slow-{}-{}.smt2", std::process::id(), self.stats.queries);
            let mut t = Smt::new(&self.cmd, 1);
            for c in &cs { t.emit(p, *c); }
            let mut b = String::from("(set-logic QF_BV)\n");
            b.push_str(&t.buf);
            for c in &cs { b.push_str(&format!("(assert {})\n", Self::name(p, *c))); }
            b.push_str(&format!("(check-sat) ; {} {}\n", line, dt));
            let _ = std::fs::write(f, b);
        }
        self.cache.insert(cs, r.clone());
        Ok(r)
    }

    fn line(&mut self) -> Result<String, Unknown> {
        let mut s = String::new();
        loop {
            s.clear();
            let n = self.io.as_mut().unwrap().2.read_line(&mut s).map_err(|e| Unknown(e.to_string()))?;
            if n == 0 { return Err(Unknown("solver closed its output".into())); }
            let t = s.trim();
            if !t.is_empty() { return Ok(t.to_string()); }
        }
    }
    fn sexpr(&mut self) -> Result<String, Unknown> {
        let mut acc = String::new();
        let mut d = 0i32;
        loop {
            let l = self.line()?;
            for c in l.chars() { if c == '(' { d += 1 } else if c == ')' { d -= 1 } }
            acc.push_str(&l);
            acc.push(' ');
            if acc.starts_with("(error") { return Err(Unknown(acc)); }
            if d <= 0 { return Ok(acc); }
        }
    }
}

impl Drop for Smt {
    fn drop(&mut self) { if let Some((c, ..)) = &mut self.io { let _ = c.kill(); let _ = c.wait(); } }
}

fn parse_model(s: &str) -> Result<Vec<(u32, u128)>, Unknown> {
    // ((v1 #x00) (v2 true) (v3 (_ bv5 8)))
    let t = s.replace('(', " ( ").replace(')', " ) ");
    let toks: Vec<&str> = t.split_whitespace().collect();
    let mut i = 0;
    let mut out = vec![];
    while i < toks.len() {
        if toks[i].starts_with('v') && toks[i][1..].bytes().all(|c| c.is_ascii_digit()) {
            let id: u32 = toks[i][1..].parse().unwrap();
            let v = toks.get(i + 1).copied().unwrap_or("");
            let val = if let Some(h) = v.strip_prefix("#x") { u128::from_str_radix(h, 16).map_err(|e| Unknown(e.to_string()))? }
                else if let Some(b) = v.strip_prefix("#b") { u128::from_str_radix(b, 2).map_err(|e| Unknown(e.to_string()))? }
                else if v == "true" { 1 } else if v == "false" { 0 }
                else if v == "(" && toks.get(i + 2) == Some(&"_") { toks[i + 3][2..].parse().map_err(|_| Unknown(s.into()))? }
                else { return Err(Unknown(format!("model: {}", s))) };
            out.push((id, val));
        }
        i += 1;
    }
    Ok(out)
}
