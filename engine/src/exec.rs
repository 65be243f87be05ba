//! Forking symbolic executor over the parsed LLVM IR.
use crate::expr::*;
use crate::ir::*;
use crate::smt::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum V {
    I(u128),
    S(E),
    A(Rc<Vec<V>>),
}

#[derive(Clone)]
pub struct Obj {
    data: Vec<u8>,
    sym: Option<Vec<E>>, // 0 = concrete
    ro: bool,
}

type Slot = Option<Rc<Obj>>;
const CH: usize = 32;

#[derive(Clone, Default)]
struct Mem {
    chunks: Vec<Rc<Vec<Slot>>>,
    next: u32,
    free: Vec<u32>,
}

#[derive(Clone)]
struct Frame {
    f: usize,
    blk: u32,
    ip: usize,
    regs: Vec<V>,
    allocas: Vec<u32>,
    dst: Option<u32>,
    normal: Option<u32>,
    memo: Option<Rc<Memo>>,
}

/// A call whose result is remembered (see `Exec::memo_key`).
struct Memo { key: Vec<u8>, out: u64, hashes: usize, next: u32, free: Vec<u32> }

#[derive(Clone)]
struct HashEntry { inp: Vec<V>, out: Vec<V>, symbolic: bool }

#[derive(Clone)]
pub struct State {
    frames: Vec<Frame>,
    mem: Mem,
    pc: Vec<E>,
    facts: Rc<HashSet<E>>,
    model: Rc<HashMap<u32, u128>>,
    inputs: Vec<(Rc<str>, Vec<(u32, u32)>, u64)>, // name, [(var, width)], bytes
    nvars: u32,
    hashes: Rc<Vec<HashEntry>>,
    steps: u64,
    covers: Rc<BTreeSet<String>>,
}

pub enum Stop {
    Infeasible,
    Done,
    Panic(String),
    Err(String),
    Limit,
    /// the rest of this path is explored by another process
    Handed,
}
type R<T> = Result<T, Stop>;

#[derive(Clone, Debug)]
pub struct Violation {
    pub id: String,
    pub kind: String,
    pub detail: String,
    pub inputs: Vec<(String, Vec<u8>)>,
    pub stack: Vec<String>,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub paths: u64,
    pub infeasible: u64,
    pub forks: u64,
    pub steps: u64,
    pub max_path_steps: u64,
    pub max_pc: u64,
    pub checks: u64,
    pub checks_const: u64,
    pub checks_solver: u64,
    pub checks_by_id: BTreeMap<String, (u64, u64)>,
    pub hash_calls: u64,
    pub hash_sym: u64,
    pub memo_hits: u64,
    pub covers: BTreeMap<String, u64>,
    pub funcs: BTreeSet<usize>,
    /// sample paths for which no input with real hash values was found
    pub unreal: u64,
    pub samples: Vec<(Vec<String>, Vec<(String, Vec<u8>)>)>,
    pub max_inputs_bits: u64,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Hook {
    None, Alloc, AllocZ, Dealloc, Realloc, Nop, Panic, Sha256, RandomKeys, HashOne,
}

pub struct Config {
    pub prop: Option<String>,
    pub solver: String,
    pub timeout_ms: u64,
    pub max_steps: u64,
    pub max_viol: usize,
    pub deadline: std::time::Instant,
    pub max_violations_per_id: usize,
}

pub struct Exec {
    pub m: &'static Module,
    hooks: &'static Vec<u8>,
    pub p: Pool,
    pub smt: Smt,
    pub stack: Vec<State>,
    globals: Vec<Option<Rc<Obj>>>,
    pub stats: Stats,
    pub viols: Vec<Violation>,
    pub cfg: &'static Config,
    sh: &'static crate::par::Shm,
    memo: crate::par::MemoLocal,
    last_split: std::time::Instant,
    pub memo_pats: Vec<(String, usize)>,
    seen: HashMap<Vec<String>, u32>,
    /// per function: 0 undecided, 1 not remembered, 2 all arguments are values, else 3 + size of the argument
    memo_fns: Vec<u32>,
    seen_fn: Vec<bool>,
    /// executed instructions per function (self, and including callees), kept when RSX_PROF is set
    pub prof: Option<Vec<(u64, u64)>>,
}

fn bytes_of(w: u32) -> usize { (w as usize + 7) / 8 }

pub fn compute_hooks(m: &Module) -> Vec<u8> {
    m.funcs.iter().map(|f| {
        let n = f.name.as_str();
        let has = |s: &str| n.contains(s);
        let h = if n.ends_with("___rust_alloc") || n == "__rust_alloc" { Hook::Alloc }
        else if n.ends_with("___rust_alloc_zeroed") || n == "__rust_alloc_zeroed" { Hook::AllocZ }
        else if n.ends_with("___rust_dealloc") || n == "__rust_dealloc" { Hook::Dealloc }
        else if n.ends_with("___rust_realloc") || n == "__rust_realloc" { Hook::Realloc }
        else if has("no_alloc_shim_is_unstable") { Hook::Nop }
        else if has("4core9panicking") || n.ends_with("rust_begin_unwind") || has("rust_panic_with_hook")
            || has("18handle_alloc_error") || has("17capacity_overflow") || has("5alloc7raw_vec12handle_error")
            || has("9panicking11begin_panic") || has("4core6option13expect_failed") || has("4core6option13unwrap_failed") || has("4core6result13unwrap_failed") || has("5slice5index16slice_index_fail") { Hook::Panic }
        else if has("4sha26sha25611compress256") { Hook::Sha256 }
        else if has("hashmap_random_keys") { Hook::RandomKeys }
        // std's keyed hash: some function of its argument. A constant is one, and asks nothing about the key
        else if has("4hash6random11RandomState") && has("11BuildHasher8hash_one") { Hook::HashOne }
        else if has("12thread_local") && has("11destructors") && has("8register") { Hook::Nop }
        else { Hook::None };
        h as u8
    }).collect()
}

impl Exec {
    pub fn new(m: &'static Module, hooks: &'static Vec<u8>, cfg: &'static Config, sh: &'static crate::par::Shm) -> Exec {
        Exec {
            m, hooks, p: Pool::new(), smt: Smt::new(&cfg.solver, cfg.timeout_ms), stack: vec![],
            globals: vec![None; m.globals.len()], stats: Stats::default(), viols: vec![], cfg, sh, memo: Default::default(), last_split: std::time::Instant::now(),
            memo_pats: vec![], seen: HashMap::new(), memo_fns: vec![0; m.funcs.len()], seen_fn: vec![false; m.funcs.len()],
            prof: if std::env::var_os("RSX_PROF").is_some() { Some(vec![(0, 0); m.funcs.len()]) } else { None },
        }
    }

    pub fn initial(&self, entry: &str) -> State {
        let f = *self.m.fidx.get(entry).unwrap_or_else(|| panic!("no entry {}", entry));
        let b = self.m.body(f);
        State {
            frames: vec![Frame { f, blk: 0, ip: 0, regs: vec![V::I(0); b.nregs], allocas: vec![], dst: None, normal: None, memo: None }],
            mem: Mem { chunks: vec![], next: self.m.globals.len() as u32 + 16, free: vec![] },
            pc: vec![], facts: Rc::new(HashSet::new()), model: Rc::new(HashMap::new()),
            inputs: vec![], nvars: 0,
            hashes: Rc::new(vec![]), steps: 0, covers: Rc::new(BTreeSet::new()),
        }
    }

    // ---------------------------------------------------------------- values
    fn e(&mut self, v: &V, w: u32) -> E {
        match v {
            V::I(x) => self.p.c(w, *x),
            V::S(e) => { debug_assert_eq!(self.p.w(*e), w); *e }
            V::A(_) => panic!("aggregate as scalar"),
        }
    }
    fn v(&self, e: E) -> V { match self.p.k(e) { Some(k) => V::I(k), None => V::S(e) } }
    fn cv(c: &Cv) -> V {
        match c {
            Cv::I(x) => V::I(*x),
            Cv::A(v) => V::A(Rc::new(v.iter().map(Self::cv).collect())),
        }
    }
    #[inline]
    fn get(st: &State, o: &Op) -> V {
        match o {
            Op::R(r) => st.frames.last().unwrap().regs[*r as usize].clone(),
            Op::C(c) => Self::cv(c),
        }
    }
    #[inline]
    fn set(st: &mut State, r: u32, v: V) { st.frames.last_mut().unwrap().regs[r as usize] = v; }

    // ---------------------------------------------------------------- memory
    fn new_obj(&mut self, st: &mut State, size: u64) -> u64 {
        let id = match st.mem.free.pop() { Some(i) => i, None => { st.mem.next += 1; st.mem.next - 1 } };
        self.put_obj(st, id, Rc::new(Obj { data: vec![0; size as usize], sym: None, ro: false }));
        ((id as u64) + 1) << 32
    }
    fn put_obj(&mut self, st: &mut State, id: u32, o: Rc<Obj>) {
        let c = id as usize / CH;
        while st.mem.chunks.len() <= c { st.mem.chunks.push(Rc::new(vec![None; CH])); }
        Rc::make_mut(&mut st.mem.chunks[c])[id as usize % CH] = Some(o);
    }
    fn drop_obj(&mut self, st: &mut State, id: u32, recycle: bool) {
        let c = id as usize / CH;
        if c < st.mem.chunks.len() { Rc::make_mut(&mut st.mem.chunks[c])[id as usize % CH] = None; }
        if recycle { st.mem.free.push(id); }
    }
    fn locate(&mut self, st: &State, addr: u64, n: usize) -> R<(u32, usize)> {
        let id = (addr >> 32) as i64 - 1;
        let off = (addr & 0xffff_ffff) as usize;
        if id < 0 || addr >= FBASE { return Err(Stop::Err(format!("bad address {:#x} ({})", addr, self.whereami(st)))); }
        let len = match self.obj(st, id as u32) {
            Some(o) => o.data.len(),
            None => return Err(Stop::Err(format!("access to dead object {:#x} ({})", addr, self.whereami(st)))),
        };
        if off + n > len { return Err(Stop::Err(format!("out of bounds {:#x}+{} of {} ({})", addr, n, len, self.whereami(st)))); }
        Ok((id as u32, off))
    }
    fn obj(&mut self, st: &State, id: u32) -> Option<Rc<Obj>> {
        let c = id as usize / CH;
        if let Some(ch) = st.mem.chunks.get(c) {
            if let Some(o) = &ch[id as usize % CH] { return Some(o.clone()); }
        }
        let gi = id as usize;
        if gi < self.globals.len() {
            if self.globals[gi].is_none() {
                let data = self.m.global_bytes(gi);
                self.globals[gi] = Some(Rc::new(Obj { data, sym: None, ro: self.m.globals[gi].constant }));
            }
            return self.globals[gi].clone();
        }
        None
    }
    fn obj_mut<'a>(&mut self, st: &'a mut State, id: u32) -> R<&'a mut Obj> {
        let c = id as usize / CH;
        let present = st.mem.chunks.get(c).map(|ch| ch[id as usize % CH].is_some()).unwrap_or(false);
        if !present {
            let o = self.obj(st, id).ok_or_else(|| Stop::Err("write to dead object".into()))?;
            if o.ro { return Err(Stop::Err("write to constant".into())); }
            self.put_obj(st, id, o);
        }
        let slot = &mut Rc::make_mut(&mut st.mem.chunks[c])[id as usize % CH];
        Ok(Rc::make_mut(slot.as_mut().unwrap()))
    }

    fn load_bytes(&mut self, o: &Obj, off: usize, n: usize) -> V {
        if let Some(s) = &o.sym {
            if s[off..off + n].iter().any(|x| *x != 0) {
                let mut acc: Option<E> = None;
                for k in (0..n).rev() {
                    let b = if s[off + k] != 0 { s[off + k] } else { self.p.c(8, o.data[off + k] as u128) };
                    acc = Some(match acc { None => b, Some(h) => self.p.concat(h, b) });
                }
                return self.v(acc.unwrap());
            }
        }
        let mut x: u128 = 0;
        for k in (0..n).rev() { x = (x << 8) | o.data[off + k] as u128; }
        V::I(x)
    }
    fn load_at(&mut self, o: &Obj, off: usize, t: &Ty) -> R<V> {
        Ok(match t {
            Ty::Int(w) => {
                let n = bytes_of(*w);
                if n > 16 { return Err(Stop::Err(format!("load i{}", w))); }
                let v = self.load_bytes(o, off, n);
                if *w as usize == n * 8 { v } else {
                    match v { V::I(x) => V::I(mask(*w, x)), V::S(e) => { let x = self.p.extract(*w - 1, 0, e); self.v(x) } v => v }
                }
            }
            Ty::Ptr => self.load_bytes(o, off, 8),
            Ty::Float(w) => self.load_bytes(o, off, *w as usize / 8),
            Ty::Struct(fs, _) => {
                let mut v = vec![];
                for (i, f) in fs.iter().enumerate() { v.push(self.load_at(o, off + t.field_off(i) as usize, f)?); }
                V::A(Rc::new(v))
            }
            Ty::Array(n, f) | Ty::Vector(n, f) => {
                if matches!(t, Ty::Vector(..)) && f.width() % 8 != 0 { return Err(Stop::Err("load of sub-byte vector".into())); }
                let mut v = vec![];
                for i in 0..*n { v.push(self.load_at(o, off + (i * f.size()) as usize, f)?); }
                V::A(Rc::new(v))
            }
            _ => return Err(Stop::Err(format!("load {:?}", t))),
        })
    }
    fn store_bytes(p: &mut Pool, o: &mut Obj, off: usize, n: usize, v: &V, w: u32) {
        match v {
            V::I(x) => {
                for k in 0..n { o.data[off + k] = (x >> (8 * k)) as u8; }
                if let Some(s) = &mut o.sym { for k in 0..n { s[off + k] = 0; } }
            }
            V::S(e) => {
                let len = o.data.len();
                let full = if w as usize == n * 8 { *e } else { p.zext(n as u32 * 8, *e) };
                if o.sym.is_none() { o.sym = Some(vec![0; len]); }
                for k in 0..n {
                    let b = p.extract(8 * k as u32 + 7, 8 * k as u32, full);
                    match p.k(b) {
                        Some(x) => { o.data[off + k] = x as u8; o.sym.as_mut().unwrap()[off + k] = 0; }
                        None => { o.sym.as_mut().unwrap()[off + k] = b; }
                    }
                }
            }
            V::A(_) => panic!("store agg"),
        }
    }
    fn store_at(p: &mut Pool, o: &mut Obj, off: usize, t: &Ty, v: &V) -> R<()> {
        match t {
            Ty::Int(w) | Ty::Float(w) => { let n = bytes_of(*w); if n > 16 { return Err(Stop::Err(format!("store i{}", w))); } Self::store_bytes(p, o, off, n, v, *w) }
            Ty::Ptr => Self::store_bytes(p, o, off, 8, v, 64),
            Ty::Struct(fs, _) => if let V::A(vs) = v {
                for (i, f) in fs.iter().enumerate() { Self::store_at(p, o, off + t.field_off(i) as usize, f, &vs[i])?; }
            },
            Ty::Array(n, f) | Ty::Vector(n, f) => if let V::A(vs) = v {
                if matches!(t, Ty::Vector(..)) && f.width() % 8 != 0 { return Err(Stop::Err("store of sub-byte vector".into())); }
                for i in 0..*n as usize { Self::store_at(p, o, off + i * f.size() as usize, f, &vs[i])?; }
            },
            _ => return Err(Stop::Err(format!("store {:?}", t))),
        }
        Ok(())
    }
    /// byte i as expression or concrete
    fn byte(o: &Obj, i: usize) -> Result<u8, E> {
        match &o.sym { Some(s) if s[i] != 0 => Err(s[i]), _ => Ok(o.data[i]) }
    }
    fn copy(&mut self, st: &mut State, d: u64, s: u64, n: usize) -> R<()> {
        if n == 0 { return Ok(()); }
        let (si, so) = self.locate(st, s, n)?;
        let (di, dof) = self.locate(st, d, n)?;
        let src = self.obj(st, si).unwrap();
        let data = src.data[so..so + n].to_vec();
        let sym = src.sym.as_ref().map(|x| x[so..so + n].to_vec());
        drop(src);
        let o = self.obj_mut(st, di)?;
        o.data[dof..dof + n].copy_from_slice(&data);
        match sym {
            Some(sv) if sv.iter().any(|x| *x != 0) => {
                let len = o.data.len();
                let t = o.sym.get_or_insert_with(|| vec![0; len]);
                t[dof..dof + n].copy_from_slice(&sv);
            }
            _ => if let Some(t) = &mut o.sym { for k in 0..n { t[dof + k] = 0; } },
        }
        Ok(())
    }
    fn read_concrete(&mut self, st: &State, a: u64, n: usize) -> R<Vec<u8>> {
        if n == 0 { return Ok(vec![]); }
        let (i, off) = self.locate(st, a, n)?;
        let o = self.obj(st, i).unwrap();
        Ok(o.data[off..off + n].to_vec())
    }

    // ---------------------------------------------------------------- forking
    fn eval(&self, st: &State, e: E) -> u128 {
        let mut memo = HashMap::new();
        self.p.eval(e, &st.model, &mut memo)
    }
    /// A model of the path condition and the goal, none if there is none. What is assumed of hashes (equal
    /// results exactly for equal inputs) is added where a model violates it: the answer "none" needs no more,
    /// and a model returned violates nothing.
    fn solve(&mut self, st: &State, goal: E) -> R<Option<HashMap<u32, u128>>> {
        if let Some(0) = self.p.k(goal) { return Ok(None); }
        let mut pc = std::borrow::Cow::Borrowed(&st.pc);
        for _ in 0..10_000 {
            match self.smt.check(&self.p, &pc, goal) {
                Ok(None) => return Ok(None),
                Ok(Some(m)) => {
                    let mut h = (*st.model).clone();
                    for (k, v) in m { h.insert(k, v); }
                    if !st.hashes.iter().any(|x| x.symbolic) { return Ok(Some(h)); }
                    // with the values hashes really have?
                    let mut r = h.clone();
                    self.real_hashes(st, &mut r);
                    if self.satisfied(&st.pc, goal, &r) { return Ok(Some(r)); }
                    let bad = self.hash_conflicts(st, &h);
                    if bad.is_empty() { return Ok(Some(h)); }
                    for (i, j) in bad {
                        let (a, b) = (st.hashes[i].clone(), st.hashes[j].clone());
                        let (x, y) = self.hash_axiom(&a.inp, &a.out, &b.inp, &b.out);
                        for c in [x, y] { if self.p.k(c).is_none() { pc.to_mut().push(c); } }
                    }
                }
                Err(u) => return Err(Stop::Err(format!("solver: {}", u.0))),
            }
        }
        Err(Stop::Err("hash refinement does not end".into()))
    }
    fn satisfied(&self, pc: &[E], goal: E, m: &HashMap<u32, u128>) -> bool {
        let mut memo = HashMap::new();
        self.p.eval(goal, m, &mut memo) == 1 && pc.iter().all(|c| self.p.eval(*c, m, &mut memo) == 1)
    }
    fn word(&self, v: &V, m: &HashMap<u32, u128>, memo: &mut HashMap<E, u128>) -> u32 {
        match v { V::I(x) => *x as u32, V::S(e) => self.p.eval(*e, m, memo) as u32, _ => 0 }
    }
    /// Gives the results of hashes their real values.
    fn real_hashes(&self, st: &State, m: &mut HashMap<u32, u128>) {
        for h in st.hashes.iter().filter(|h| h.symbolic) {
            // inputs may contain earlier results: evaluated anew
            let mut memo = HashMap::new();
            let x: Vec<u32> = h.inp.iter().map(|v| self.word(v, m, &mut memo)).collect();
            let o = crate::sha::words(&x);
            for (k, v) in h.out.iter().enumerate() {
                if let V::S(e) = v { if let N::Var(_, id) = self.p.n(*e) { m.insert(*id, o[k] as u128); } }
            }
        }
    }
    /// Pairs of hashes that contradict each other in the model.
    fn hash_conflicts(&self, st: &State, m: &HashMap<u32, u128>) -> Vec<(usize, usize)> {
        let mut memo = HashMap::new();
        let mut by_in: HashMap<Vec<u32>, usize> = HashMap::new();
        let mut by_out: HashMap<Vec<u32>, usize> = HashMap::new();
        let mut bad = vec![];
        let vals: Vec<(Vec<u32>, Vec<u32>)> = st.hashes.iter().map(|h| (
            h.inp.iter().map(|v| self.word(v, m, &mut memo)).collect(),
            h.out.iter().map(|v| self.word(v, m, &mut memo)).collect(),
        )).collect();
        for (i, (x, o)) in vals.iter().enumerate() {
            if let Some(j) = by_in.get(x) { if vals[*j].1 != *o { bad.push((*j, i)); } } else { by_in.insert(x.clone(), i); }
            // collision resistance is assumed for the first 28 bytes
            let o = o[..7].to_vec();
            if let Some(j) = by_out.get(&o) { if vals[*j].0 != *x { bad.push((*j, i)); } } else { by_out.insert(o, i); }
        }
        bad
    }
    /// A model with real hash values, where one is found easily: for native replays.
    fn realize(&mut self, st: &State, goal: E, m: &HashMap<u32, u128>, tries: u32) -> Option<HashMap<u32, u128>> {
        let mut r = m.clone();
        self.real_hashes(st, &mut r);
        if self.satisfied(&st.pc, goal, &r) { return Some(r); }
        // vary what only hashes depend on
        let mut fixed: HashSet<u32> = self.p.vars[goal as usize].iter().copied().collect();
        for c in &st.pc { fixed.extend(self.p.vars[*c as usize].iter()); }
        let mut free: BTreeSet<u32> = BTreeSet::new();
        for h in st.hashes.iter().filter(|h| h.symbolic) {
            for v in &h.inp { if let V::S(e) = v { free.extend(self.p.vars[*e as usize].iter().filter(|v| **v < 0x4000_0000 && !fixed.contains(v))); } }
        }
        if free.is_empty() { return None; }
        let mut seed = 0x9e37_79b9_7f4a_7c15u64;
        for _ in 0..tries {
            for v in &free {
                seed ^= seed << 13;
                seed ^= seed >> 7;
                seed ^= seed << 17;
                let w = v & 127;
                r.insert(*v, if w >= 64 || w == 0 { seed as u128 } else { seed as u128 & ((1u128 << w) - 1) });
            }
            self.real_hashes(st, &mut r);
            if self.satisfied(&st.pc, goal, &r) { return Some(r); }
        }
        None
    }
    fn add_pc(&mut self, st: &mut State, c: E) {
        // split conjunctions for better slicing
        if let N::And(a, b) = *self.p.n(c) { self.add_pc(st, a); self.add_pc(st, b); }
        else if self.p.k(c).is_none() { st.pc.push(c); }
        Rc::make_mut(&mut st.facts).insert(c);
        if st.pc.len() as u64 > self.stats.max_pc { self.stats.max_pc = st.pc.len() as u64; }
    }
    /// Decide a condition on this path; forks when both outcomes are feasible.  The forked state
    /// re-executes the current instruction, so callers must not have changed the state yet.
    fn branch(&mut self, st: &mut State, c: E) -> R<bool> {
        if let Some(k) = self.p.k(c) { return Ok(k == 1); }
        if st.facts.contains(&c) { return Ok(true); }
        let nc = self.p.not(c);
        if st.facts.contains(&nc) { return Ok(false); }
        let v = self.eval(st, c) == 1;
        let (lit, other) = if v { (c, nc) } else { (nc, c) };
        match self.solve(st, other)? {
            None => {
                Rc::make_mut(&mut st.facts).insert(lit);
            }
            Some(m) => {
                self.stats.forks += 1;
                let mut o = st.clone();
                o.model = Rc::new(m);
                self.add_pc(&mut o, other);
                self.stack.push(o);
                self.add_pc(st, lit);
                self.maybe_split()?;
            }
        }
        Ok(v)
    }
    fn concretize(&mut self, st: &mut State, v: &V, w: u32) -> R<u128> {
        match v {
            V::I(x) => Ok(*x),
            V::S(e) => loop {
                let k = self.eval(st, *e);
                let kc = self.p.c(w, k);
                let c = self.p.eq(*e, kc);
                if self.branch(st, c)? { return Ok(k); }
            },
            V::A(_) => Err(Stop::Err("concretize aggregate".into())),
        }
    }
    fn ptr(&mut self, st: &mut State, v: &V) -> R<u64> { Ok(self.concretize(st, v, 64)? as u64) }

    // ---------------------------------------------------------------- running
    fn whereami(&self, st: &State) -> String {
        st.frames.iter().rev().take(6).map(|f| self.m.funcs[f.f].name.clone()).collect::<Vec<_>>().join(" < ")
    }
    fn input_values(&self, st: &State, model: &HashMap<u32, u128>) -> Vec<(String, Vec<u8>)> {
        st.inputs.iter().map(|(n, vars, nb)| {
            let mut b = vec![];
            for (id, w) in vars {
                let v = model.get(id).copied().unwrap_or(0);
                for k in 0..(*w / 8) { b.push((v >> (8 * k)) as u8); }
            }
            b.truncate(*nb as usize);
            (n.to_string(), b)
        }).collect()
    }
    fn violation(&mut self, st: &State, id: &str, kind: &str, detail: String, model: &HashMap<u32, u128>, goal: Option<E>) {
        if self.viols.iter().filter(|v| v.id == id).count() >= self.cfg.max_violations_per_id { return; }
        let goal = goal.unwrap_or(self.p.tru);
        let real = self.realize(st, goal, model, 5000);
        let v = Violation {
            id: id.into(), kind: kind.into(), detail,
            inputs: self.input_values(st, real.as_ref().unwrap_or(model)),
            stack: st.frames.iter().rev().take(12).map(|f| self.m.funcs[f.f].name.clone()).collect(),
        };
        self.viols.push(v);
    }

    /// Runs one state until its path ends.  Returns an error text if the path could not be decided.
    pub fn run(&mut self, mut st: State) -> Result<(), String> {
        let start = st.steps;
        let r = loop {
            if st.steps & 0xfff == 0xfff {
                if self.sh.stop.load(std::sync::atomic::Ordering::Relaxed) { break Stop::Handed; }
                if std::time::Instant::now() > self.cfg.deadline { break Stop::Err(format!("time budget exhausted before the exploration finished (in {})", self.whereami(&st))); }
                if let Err(s) = self.maybe_split() { break s; }
            }
            if st.steps >= self.cfg.max_steps { break Stop::Limit; }
            match self.step(&mut st) {
                Ok(()) => {}
                Err(s) => break s,
            }
        };
        if let Stop::Handed = r { return Ok(()); }
        self.stats.steps += st.steps - start;
        if st.steps > self.stats.max_path_steps { self.stats.max_path_steps = st.steps; }
        match r {
            Stop::Done => { self.end_path(&st); Ok(()) }
            Stop::Infeasible => { self.stats.infeasible += 1; Ok(()) }
            Stop::Panic(m) => {
                let model = st.model.clone();
                let id = self.cfg.prop.clone().unwrap_or_else(|| "panic".into());
                self.violation(&st, &id, "panic", m, &model, None);
                self.end_path(&st);
                Ok(())
            }
            Stop::Limit => {
                let model = st.model.clone();
                let id = self.cfg.prop.clone().unwrap_or_else(|| "termination".into());
                let w = self.whereami(&st);
                self.violation(&st, &id, "steps", format!("path exceeded {} IR steps in {}", self.cfg.max_steps, w), &model, None);
                self.end_path(&st);
                Ok(())
            }
            Stop::Err(e) => Err(e),
            Stop::Handed => Ok(()),
        }
    }
    fn end_path(&mut self, st: &State) {
        self.stats.paths += 1;
        for c in st.covers.iter() { *self.stats.covers.entry(c.clone()).or_default() += 1; }
        let bits: u64 = st.inputs.iter().map(|(_, v, _)| v.iter().map(|x| x.1 as u64).sum::<u64>()).sum();
        if bits > self.stats.max_inputs_bits { self.stats.max_inputs_bits = bits; }
        let cv: Vec<String> = st.covers.iter().cloned().collect();
        let k = self.seen.entry(cv).or_insert(0);
        *k += 1;
        if self.stats.samples.len() < 120 && *k < 4 {
            let t = self.p.tru;
            let Some(m) = self.realize(st, t, &st.model, 20) else { self.stats.unreal += 1; return };
            let iv = self.input_values(st, &m);
            self.stats.samples.push((st.covers.iter().cloned().collect(), iv));
        }
    }

    fn goto(&mut self, st: &mut State, b: u32) -> R<()> {
        let m = self.m;
        let fr = st.frames.last().unwrap();
        let body = m.body(fr.f);
        let prev = fr.blk;
        let blk = &body.blocks[b as usize];
        if !blk.phis.is_empty() {
            let mut vals = Vec::with_capacity(blk.phis.len());
            for (dst, inc) in &blk.phis {
                let o = inc.iter().find(|(p, _)| *p == prev).ok_or_else(|| Stop::Err("phi".into()))?;
                vals.push((*dst, Self::get(st, &o.1)));
            }
            let fr = st.frames.last_mut().unwrap();
            for (d, v) in vals { fr.regs[d as usize] = v; }
        }
        let fr = st.frames.last_mut().unwrap();
        fr.blk = b;
        fr.ip = 0;
        Ok(())
    }

    fn bin(&mut self, op: Bop, w: u32, a: &V, b: &V) -> R<V> {
        if let (V::I(x), V::I(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let r = match op {
                Bop::Add => x.wrapping_add(y),
                Bop::Sub => x.wrapping_sub(y),
                Bop::Mul => x.wrapping_mul(y),
                Bop::And => x & y,
                Bop::Or => x | y,
                Bop::Xor => x ^ y,
                Bop::Shl => if y >= w as u128 { 0 } else { x << y },
                Bop::LShr => if y >= w as u128 { 0 } else { x >> y },
                Bop::AShr => (sx(w, x) >> y.min(w as u128 - 1)) as u128,
                Bop::UDiv => if y == 0 { return Err(Stop::Err("udiv by zero".into())) } else { x / y },
                Bop::URem => if y == 0 { return Err(Stop::Err("urem by zero".into())) } else { x % y },
                Bop::SDiv => if y == 0 { return Err(Stop::Err("sdiv by zero".into())) } else { sx(w, x).wrapping_div(sx(w, y)) as u128 },
                Bop::SRem => if y == 0 { return Err(Stop::Err("srem by zero".into())) } else { sx(w, x).wrapping_rem(sx(w, y)) as u128 },
            };
            return Ok(V::I(mask(w, r)));
        }
        let (x, y) = (self.e(a, w), self.e(b, w));
        let r = match op {
            Bop::Add => self.p.add(x, y),
            Bop::Sub => self.p.sub(x, y),
            Bop::Mul => self.p.mul(x, y),
            Bop::And => self.p.and(x, y),
            Bop::Or => self.p.or(x, y),
            Bop::Xor => self.p.xor(x, y),
            Bop::Shl => self.p.shl(x, y),
            Bop::LShr => self.p.lshr(x, y),
            Bop::AShr => self.p.ashr(x, y),
            _ => self.p.divop(op, x, y),
        };
        Ok(self.v(r))
    }
    fn icmp(&mut self, p: Pred, w: u32, a: &V, b: &V) -> V {
        if let (V::I(x), V::I(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let r = match p {
                Pred::Eq => x == y, Pred::Ne => x != y,
                Pred::Ugt => x > y, Pred::Uge => x >= y, Pred::Ult => x < y, Pred::Ule => x <= y,
                Pred::Sgt => sx(w, x) > sx(w, y), Pred::Sge => sx(w, x) >= sx(w, y), Pred::Slt => sx(w, x) < sx(w, y), Pred::Sle => sx(w, x) <= sx(w, y),
            };
            return V::I(r as u128);
        }
        let (x, y) = (self.e(a, w), self.e(b, w));
        let r = match p {
            Pred::Eq => self.p.eq(x, y),
            Pred::Ne => { let e = self.p.eq(x, y); self.p.not(e) }
            Pred::Ult => self.p.ult(x, y), Pred::Ule => self.p.ule(x, y),
            Pred::Ugt => self.p.ult(y, x), Pred::Uge => self.p.ule(y, x),
            Pred::Slt => self.p.slt(x, y), Pred::Sle => self.p.sle(x, y),
            Pred::Sgt => self.p.slt(y, x), Pred::Sge => self.p.sle(y, x),
        };
        self.v(r)
    }
    fn ite(&mut self, c: E, t: &Ty, a: &V, b: &V) -> V {
        match (a, b) {
            (V::A(x), V::A(y)) => {
                let v = (0..x.len()).map(|i| { let et = t.elem(i); self.ite(c, &et, &x[i], &y[i]) }).collect();
                V::A(Rc::new(v))
            }
            _ => {
                let w = t.width();
                let (x, y) = (self.e(a, w), self.e(b, w));
                let r = self.p.ite(c, x, y);
                self.v(r)
            }
        }
    }
    fn flatten(&mut self, v: &V, t: &Ty) -> R<V> {
        // to one integer of t.width() bits
        match (v, t) {
            (V::A(xs), Ty::Vector(_, et)) => {
                let lw = et.width();
                if xs.iter().all(|x| matches!(x, V::I(_))) {
                    let mut r = 0u128;
                    for (i, x) in xs.iter().enumerate() { if let V::I(k) = x { r |= k << (lw * i as u32); } }
                    return Ok(V::I(r));
                }
                let mut acc: Option<E> = None;
                for x in xs.iter().rev() {
                    let b = self.e(x, lw);
                    acc = Some(match acc { None => b, Some(h) => self.p.concat(h, b) });
                }
                Ok(self.v(acc.unwrap()))
            }
            _ => Ok(v.clone()),
        }
    }
    fn unflatten(&mut self, v: &V, t: &Ty) -> R<V> {
        match t {
            Ty::Vector(n, et) => {
                let lw = et.width();
                let mut out = vec![];
                for i in 0..*n as u32 {
                    out.push(match v {
                        V::I(x) => V::I(mask(lw, x >> (lw * i))),
                        V::S(e) => { let x = self.p.extract(lw * i + lw - 1, lw * i, *e); self.v(x) }
                        _ => return Err(Stop::Err("unflatten".into())),
                    });
                }
                Ok(V::A(Rc::new(out)))
            }
            _ => Ok(v.clone()),
        }
    }
    fn cast(&mut self, op: Cop, from: &Ty, to: &Ty, v: &V) -> R<V> {
        if op == Cop::Bitcast {
            if t_is_vec(from) || t_is_vec(to) {
                let f = self.flatten(v, from)?;
                return self.unflatten(&f, to);
            }
            return Ok(v.clone());
        }
        if let (V::A(xs), Ty::Vector(_, fe), Ty::Vector(_, te)) = (v, from, to) {
            let mut out = vec![];
            for x in xs.iter() { out.push(self.cast(op, fe, te, x)?); }
            return Ok(V::A(Rc::new(out)));
        }
        let (fw, tw) = (from.width(), to.width());
        Ok(match v {
            V::I(x) => V::I(match op { Cop::ZExt => *x, Cop::Trunc => mask(tw, *x), _ => mask(tw, sx(fw, *x) as u128) }),
            V::S(e) => {
                if tw > 128 { return Err(Stop::Err("wide cast".into())); }
                let r = match op { Cop::ZExt => self.p.zext(tw, *e), Cop::Trunc => self.p.extract(tw - 1, 0, *e), _ => self.p.sext(tw, *e) };
                self.v(r)
            }
            _ => return Err(Stop::Err("cast".into())),
        })
    }

    fn step(&mut self, st: &mut State) -> R<()> {
        let m = self.m;
        let fr = st.frames.last().unwrap();
        let body = m.body(fr.f);
        let ins = &body.blocks[fr.blk as usize].ins[fr.ip];
        st.steps += 1;
        if let Some(p) = &mut self.prof {
            p[fr.f].0 += 1;
            if st.steps % 64 == 0 { let mut seen = vec![]; for f in &st.frames { if !seen.contains(&f.f) { seen.push(f.f); p[f.f].1 += 64; } } }
        }
        match ins {
            Ins::Bin { dst, op, w, lanes, a, b } => {
                let (x, y) = (Self::get(st, a), Self::get(st, b));
                let r = if *lanes == 0 {
                    // division by a symbolic value that may be zero would be UB; rustc guards it
                    self.bin(*op, *w, &x, &y)?
                } else { self.lanes2(&x, &y, |s, p, q| s.bin(*op, *w, p, q))? };
                Self::set(st, *dst, r);
            }
            Ins::Icmp { dst, p, w, lanes, a, b } => {
                let (x, y) = (Self::get(st, a), Self::get(st, b));
                let r = if *lanes == 0 { self.icmp(*p, *w, &x, &y) } else { self.lanes2(&x, &y, |s, q, r| Ok(s.icmp(*p, *w, q, r)))? };
                Self::set(st, *dst, r);
            }
            Ins::Cast { dst, op, from, to, a } => {
                let x = Self::get(st, a);
                let r = self.cast(*op, from, to, &x)?;
                Self::set(st, *dst, r);
            }
            Ins::Load { dst, ty, p } => {
                let pv = Self::get(st, p);
                let r = match sub_byte(ty) {
                    Some(w) => {
                        let x = self.load(st, &pv, &Ty::Int(w))?;
                        self.unflatten(&x, ty)?
                    }
                    None => self.load(st, &pv, ty)?,
                };
                Self::set(st, *dst, r);
            }
            Ins::Store { ty, v, p } => {
                let pv = Self::get(st, p);
                let a = self.ptr(st, &pv)?;
                let v = Self::get(st, v);
                match sub_byte(ty) {
                    Some(w) => {
                        let x = self.flatten(&v, ty)?;
                        self.store(st, a, &Ty::Int(w), &x)?;
                    }
                    None => self.store(st, a, ty, &v)?,
                }
            }
            Ins::Alloca { dst, size, n } => {
                let k = match Self::get(st, n) { V::I(k) => k as u64, _ => return Err(Stop::Err("symbolic alloca".into())) };
                let a = self.new_obj(st, size * k);
                let fr = st.frames.last_mut().unwrap();
                fr.allocas.push((a >> 32) as u32 - 1);
                fr.regs[*dst as usize] = V::I(a as u128);
            }
            Ins::Gep { dst, base, off, var } => {
                let b = Self::get(st, base);
                let mut all = matches!(b, V::I(_));
                let mut vs = Vec::with_capacity(var.len());
                for (o, w, sc) in var { let v = Self::get(st, o); if !matches!(v, V::I(_)) { all = false; } vs.push((v, *w, *sc)); }
                let r = if all {
                    let mut a = match b { V::I(x) => x as u64, _ => unreachable!() };
                    a = a.wrapping_add(*off as u64);
                    for (v, w, sc) in vs { if let V::I(x) = v { a = a.wrapping_add((sx(w, x) as i64).wrapping_mul(sc) as u64); } }
                    V::I(a as u128)
                } else {
                    if matches!(b, V::A(_)) { return Err(Stop::Err("vector gep".into())); }
                    let mut a = self.e(&b, 64);
                    let k = self.p.c(64, *off as u64 as u128);
                    a = self.p.add(a, k);
                    for (v, w, sc) in vs {
                        let x = self.e(&v, w);
                        let x = if w < 64 { self.p.sext(64, x) } else { self.p.extract(63, 0, x) };
                        let k = self.p.c(64, sc as u64 as u128);
                        let t = self.p.mul(x, k);
                        a = self.p.add(a, t);
                    }
                    self.v(a)
                };
                Self::set(st, *dst, r);
            }
            Ins::Select { dst, ty, c, cvec, a, b } => {
                let cv = Self::get(st, c);
                let (x, y) = (Self::get(st, a), Self::get(st, b));
                let r = if *cvec {
                    let (cs, xs, ys) = match (&cv, &x, &y) { (V::A(c), V::A(x), V::A(y)) => (c.clone(), x.clone(), y.clone()), _ => return Err(Stop::Err("vector select".into())) };
                    let mut out = vec![];
                    for i in 0..cs.len() {
                        let ce = self.e(&cs[i], 1);
                        let et = ty.elem(i);
                        out.push(self.ite(ce, &et, &xs[i], &ys[i]));
                    }
                    V::A(Rc::new(out))
                } else {
                    match cv {
                        V::I(k) => if k == 1 { x } else { y },
                        V::S(ce) => {
                            if has_ptr(ty) { if self.branch(st, ce)? { x } else { y } }
                            else { self.ite(ce, ty, &x, &y) }
                        }
                        _ => return Err(Stop::Err("select".into())),
                    }
                };
                Self::set(st, *dst, r);
            }
            Ins::Call(c) => return self.call(st, c),
            Ins::ExtractValue { dst, a, idx } => {
                let mut v = Self::get(st, a);
                for i in idx { v = match v { V::A(x) => x[*i as usize].clone(), _ => return Err(Stop::Err("extractvalue".into())) }; }
                Self::set(st, *dst, v);
            }
            Ins::InsertValue { dst, a, aty: _, v, idx } => {
                let base = Self::get(st, a);
                let v = Self::get(st, v);
                fn ins(b: V, v: V, idx: &[u32]) -> V {
                    if idx.is_empty() { return v; }
                    match b {
                        V::A(mut x) => { let y = Rc::make_mut(&mut x); let o = std::mem::replace(&mut y[idx[0] as usize], V::I(0)); y[idx[0] as usize] = ins(o, v, &idx[1..]); V::A(x) }
                        b => b,
                    }
                }
                let r = ins(base, v, idx);
                Self::set(st, *dst, r);
            }
            Ins::ExtractElement { dst, a, i } => {
                let v = Self::get(st, a);
                let iv = Self::get(st, i);
                let k = self.concretize(st, &iv, 64)? as usize;
                let r = match v { V::A(x) => x[k].clone(), _ => return Err(Stop::Err("extractelement".into())) };
                Self::set(st, *dst, r);
            }
            Ins::InsertElement { dst, a, ty: _, v, i } => {
                let b = Self::get(st, a);
                let v = Self::get(st, v);
                let iv = Self::get(st, i);
                let k = self.concretize(st, &iv, 64)? as usize;
                let r = match b { V::A(mut x) => { Rc::make_mut(&mut x)[k] = v; V::A(x) } _ => return Err(Stop::Err("insertelement".into())) };
                Self::set(st, *dst, r);
            }
            Ins::Shuffle { dst, a, b, n, mask } => {
                let (x, y) = match (Self::get(st, a), Self::get(st, b)) { (V::A(x), V::A(y)) => (x, y), _ => return Err(Stop::Err("shuffle".into())) };
                let out = mask.iter().map(|k| { let k = *k as usize; if k < *n { x[k].clone() } else { y[k - n].clone() } }).collect();
                Self::set(st, *dst, V::A(Rc::new(out)));
            }
            Ins::Copy { dst, a } => { let v = Self::get(st, a); Self::set(st, *dst, v); }
            Ins::Rmw { dst, op, ty, p, v } => {
                let pv = Self::get(st, p);
                let a = self.ptr(st, &pv)?;
                let old = self.load(st, &V::I(a as u128), ty)?;
                let v = Self::get(st, v);
                let w = ty.width();
                let new = match op.as_str() {
                    "xchg" => v,
                    "add" => self.bin(Bop::Add, w, &old, &v)?,
                    "sub" => self.bin(Bop::Sub, w, &old, &v)?,
                    "and" => self.bin(Bop::And, w, &old, &v)?,
                    "or" => self.bin(Bop::Or, w, &old, &v)?,
                    "xor" => self.bin(Bop::Xor, w, &old, &v)?,
                    o => return Err(Stop::Err(format!("atomicrmw {}", o))),
                };
                self.store(st, a, ty, &new)?;
                Self::set(st, *dst, old);
            }
            Ins::CmpXchg { dst, ty, p, c, n } => {
                let pv = Self::get(st, p);
                let a = self.ptr(st, &pv)?;
                let old = self.load(st, &V::I(a as u128), ty)?;
                let cv = Self::get(st, c);
                let w = ty.width();
                let eqv = self.icmp(Pred::Eq, w, &old, &cv);
                let ee = self.e(&eqv, 1);
                let ok = self.branch(st, ee)?;
                if ok { let nv = Self::get(st, n); self.store(st, a, ty, &nv)?; }
                Self::set(st, *dst, V::A(Rc::new(vec![old, V::I(ok as u128)])));
            }
            Ins::Br(b) => return self.goto(st, *b),
            Ins::CondBr { c, t, f } => {
                let v = Self::get(st, c);
                let taken = match v { V::I(k) => k == 1, V::S(e) => self.branch(st, e)?, _ => return Err(Stop::Err("br".into())) };
                return self.goto(st, if taken { *t } else { *f });
            }
            Ins::Switch { w, v, d, cases } => {
                let x = Self::get(st, v);
                match x {
                    V::I(k) => {
                        let b = cases.iter().find(|(c, _)| *c == k).map(|x| x.1).unwrap_or(*d);
                        return self.goto(st, b);
                    }
                    V::S(e) => {
                        for (c, b) in cases {
                            let kc = self.p.c(*w, *c);
                            let q = self.p.eq(e, kc);
                            if self.branch(st, q)? { return self.goto(st, *b); }
                        }
                        return self.goto(st, *d);
                    }
                    _ => return Err(Stop::Err("switch".into())),
                }
            }
            Ins::Ret(v) => {
                let val = v.as_ref().map(|o| Self::get(st, o));
                let fr = st.frames.pop().unwrap();
                for a in fr.allocas { self.drop_obj(st, a, true); }
                if st.frames.is_empty() { return Err(Stop::Done); }
                let (dst, normal) = (fr.dst, fr.normal);
                if let Some(mm) = &fr.memo {
                    // object numbers must not depend on whether the result was remembered
                    for id in (mm.next..st.mem.next).chain(mm.free.iter().copied()) {
                        let c = id as usize / CH;
                        if st.mem.chunks.get(c).map(|x| x[id as usize % CH].is_some()).unwrap_or(false) { return Err(Stop::Err("a remembered call leaves memory behind".into())); }
                    }
                    st.mem.next = mm.next;
                    st.mem.free = mm.free.clone();
                    let mut bytes = vec![];
                    for i in 0..32 { if let V::I(b) = self.load(st, &V::I((mm.out + i) as u128), &Ty::Int(8))? { bytes.push(b as u8); } }
                    if bytes.len() == 32 {
                        let hs: Vec<[u32; 32]> = st.hashes[mm.hashes..].iter().filter(|h| !h.symbolic).map(|h| {
                            let mut a = [0u32; 32];
                            for (i, v) in h.inp.iter().chain(&h.out).enumerate() { if let V::I(x) = v { a[i] = *x as u32; } }
                            a
                        }).collect();
                        if hs.len() == st.hashes.len() - mm.hashes { self.memo.put(self.sh, &mm.key, bytes, hs); }
                    }
                }
                return self.finish_call(st, dst, normal, val);
            }
            Ins::Unreachable => return Err(Stop::Err(format!("reached unreachable: {}", self.whereami(st)))),
            Ins::Nop => {}
            Ins::Unsupported(s) => return Err(Stop::Err(format!("unsupported instruction {} in {}", s, self.whereami(st)))),
        }
        st.frames.last_mut().unwrap().ip += 1;
        Ok(())
    }

    fn finish_call(&mut self, st: &mut State, dst: Option<u32>, normal: Option<u32>, val: Option<V>) -> R<()> {
        if let (Some(d), Some(v)) = (dst, val) { Self::set(st, d, v); }
        match normal {
            Some(b) => self.goto(st, b),
            None => { st.frames.last_mut().unwrap().ip += 1; Ok(()) }
        }
    }

    fn lanes2(&mut self, a: &V, b: &V, mut f: impl FnMut(&mut Self, &V, &V) -> R<V>) -> R<V> {
        match (a, b) {
            (V::A(x), V::A(y)) => {
                let mut out = Vec::with_capacity(x.len());
                for i in 0..x.len() { out.push(f(self, &x[i], &y[i])?); }
                Ok(V::A(Rc::new(out)))
            }
            _ => Err(Stop::Err("lanes".into())),
        }
    }

    fn load(&mut self, st: &mut State, p: &V, t: &Ty) -> R<V> {
        let sz = t.store_size() as usize;
        if sz == 0 { return self.load_at(&Obj { data: vec![], sym: None, ro: true }, 0, t); }
        if let V::S(e) = p {
            if std::env::var_os("RSX_SLOW").is_some() { eprintln!("load at a symbolic address in {}", self.whereami(st)); }
            // bounded enumeration of the feasible addresses -> ite chain
            if !has_ptr(t) && !matches!(t, Ty::Struct(..) | Ty::Array(..) | Ty::Vector(..)) {
                let mut vals: BTreeSet<u64> = BTreeSet::new();
                let mut cond = self.p.tru;
                let first = self.eval(st, *e) as u64;
                let mut cur = Some(first);
                let mut ok = true;
                loop {
                    let a = match cur { Some(a) => a, None => {
                        match self.solve(st, cond)? {
                            None => break,
                            Some(h) => { let mut memo = HashMap::new(); self.p.eval(*e, &h, &mut memo) as u64 }
                        }
                    } };
                    if !vals.insert(a) { 
                        // model of an unconstrained address: exclude explicitly next time
                        if cur.is_none() { return Err(Stop::Err("address enumeration".into())); }
                    }
                    if vals.len() > 80 { ok = false; break; }
                    let k = self.p.c(64, a as u128);
                    let q = self.p.eq(*e, k);
                    let nq = self.p.not(q);
                    cond = self.p.and(cond, nq);
                    cur = None;
                }
                if ok && vals.iter().all(|a| self.locate(st, *a, sz).is_ok()) {
                    let mut acc: Option<V> = None;
                    for a in vals.iter().rev() {
                        let (id, off) = self.locate(st, *a, sz)?;
                        let o = self.obj(st, id).unwrap();
                        let v = self.load_at(&o, off, t)?;
                        acc = Some(match acc {
                            None => v,
                            Some(r) => { let k = self.p.c(64, *a as u128); let q = self.p.eq(*e, k); self.ite(q, t, &v, &r) }
                        });
                    }
                    return Ok(acc.unwrap());
                }
            }
        }
        let a = self.ptr(st, p)?;
        let (id, off) = self.locate(st, a, sz)?;
        let o = self.obj(st, id).unwrap();
        self.load_at(&o, off, t)
    }
    fn store(&mut self, st: &mut State, a: u64, t: &Ty, v: &V) -> R<()> {
        let sz = t.store_size() as usize;
        if sz == 0 { return Ok(()); }
        let (id, off) = self.locate(st, a, sz)?;
        self.obj_mut(st, id)?; // make writable
        let c = id as usize / CH;
        let slot = &mut Rc::make_mut(&mut st.mem.chunks[c])[id as usize % CH];
        let o = Rc::make_mut(slot.as_mut().unwrap());
        Self::store_at(&mut self.p, o, off, t, v)
    }

    // ---------------------------------------------------------------- calls
    fn call(&mut self, st: &mut State, c: &CallI) -> R<()> {
        let m = self.m;
        let f = match &c.callee {
            Callee::Func(f) => *f,
            Callee::Extern(n) => return self.external(st, c, n),
            Callee::Asm(s) => {
                let r = if s.contains("cpuid") || s.trim().is_empty() { zero_val(&c.ret) } else { return Err(Stop::Err(format!("inline asm {:?}", s))) };
                return self.finish_call(st, c.dst, c.normal, Some(r));
            }
            Callee::Indirect(o) => {
                let v = Self::get(st, o);
                let a = self.ptr(st, &v)?;
                if a < FBASE || ((a - FBASE) >> 4) as usize >= m.funcs.len() { return Err(Stop::Err(format!("indirect call to {:#x} in {}", a, self.whereami(st)))); }
                ((a - FBASE) >> 4) as usize
            }
        };
        let h = self.hooks[f];
        if h != Hook::None as u8 {
            let h: Hook = unsafe { std::mem::transmute(h) };
            return self.hook(st, c, f, h);
        }
        if !m.has_body(f) { let n = m.funcs[f].name.clone(); return self.external(st, c, &n); }
        let body = m.body(f);
        let mut regs = vec![V::I(0); body.nregs];
        for (i, (_, o)) in c.args.iter().enumerate().take(body.nparams) { regs[i] = Self::get(st, o); }
        if st.frames.len() > 2000 { return Err(Stop::Err("stack overflow".into())); }
        if !self.seen_fn[f] { self.seen_fn[f] = true; self.stats.funcs.insert(f); }
        let mut memo = None;
        if self.memo_fns[f] == 0 && !self.memo_pats.is_empty() {
            // decided once per function: `CommitId::commit_id` of a registered type, (sret, &self),
            // or a function of plain values
            let n = &m.funcs[f].name;
            let mut r = 1;
            for (p, s) in &self.memo_pats {
                if n.contains(p.as_str()) {
                    if *s == 0 && c.args.len() > 1 && c.args[1..].iter().all(|(t, _)| matches!(**t, Ty::Int(_) | Ty::Ptr)) { r = 2; }
                    if *s > 0 && n.contains("8CommitId9commit_id") && c.args.len() == 2 { r = 3 + *s as u32; }
                }
            }
            self.memo_fns[f] = r;
        }
        let kind = self.memo_fns[f];
        if kind > 1 {
            let key = if kind == 2 {
                let mut key = (f as u64).to_le_bytes().to_vec();
                let mut ok = true;
                for (k, (t, _)) in c.args.iter().enumerate().skip(1) {
                    match &regs[k] {
                        // what is passed by reference here is a hash of 32 bytes
                        V::I(x) if matches!(**t, Ty::Ptr) => for i in 0..32 {
                            match self.load(st, &V::I(x + i), &Ty::Int(8)) { Ok(V::I(b)) => key.push(b as u8), _ => { ok = false; break } }
                        },
                        V::I(x) => key.extend(x.to_le_bytes()),
                        _ => ok = false,
                    }
                }
                if ok { Some(key) } else { None }
            } else if let V::I(arg) = regs[1] { self.memo_key(st, f, arg as u64, kind as usize - 3) } else { None };
            if let V::I(out) = &regs[0] {
                let out = *out as u64;
                if let Some(key) = key {
                    let hit = self.memo.get(self.sh, &key);
                    if let Some(hit) = hit {
                        let (bytes, hashes) = (&hit.0, &hit.1);
                        self.stats.memo_hits += 1;
                        for (i, b) in bytes.iter().enumerate() { self.store(st, out + i as u64, &Ty::Int(8), &V::I(*b as u128))?; }
                        for x in hashes.iter() {
                            let h = HashEntry { inp: x[..24].iter().map(|v| V::I(*v as u128)).collect(), out: x[24..].iter().map(|v| V::I(*v as u128)).collect(), symbolic: false };
                            Rc::make_mut(&mut st.hashes).push(h);
                        }
                        return self.finish_call(st, c.dst, c.normal, None);
                    }
                    memo = Some(Rc::new(Memo { key, out, hashes: st.hashes.len(), next: st.mem.next, free: st.mem.free.clone() }));
                }
            }
        }
        st.frames.push(Frame { f, blk: 0, ip: 0, regs, allocas: vec![], dst: c.dst, normal: c.normal, memo });
        Ok(())
    }

    fn argv(st: &State, c: &CallI, i: usize) -> V { Self::get(st, &c.args[i].1) }
    fn argc(&mut self, st: &mut State, c: &CallI, i: usize) -> R<u64> {
        let v = Self::argv(st, c, i);
        let w = c.args[i].0.width();
        Ok(self.concretize(st, &v, w)? as u64)
    }

    fn hook(&mut self, st: &mut State, c: &CallI, f: usize, h: Hook) -> R<()> {
        let r = match h {
            Hook::Alloc | Hook::AllocZ => {
                // a symbolic size is replaced by an upper bound; a use beyond it is an error of the run
                let n = match Self::argv(st, c, 0) {
                    V::S(e) => {
                        let mut cap = 1u64 << 6;
                        while cap < 1 << 20 {
                            let k = self.p.c(64, cap as u128);
                            let le = self.p.ule(e, k);
                            let gt = self.p.not(le);
                            if self.solve(st, gt)?.is_none() { break; }
                            cap <<= 2;
                        }
                        cap.min(1 << 16)
                    }
                    v => self.concretize(st, &v, 64)? as u64,
                };
                if n > 1 << 28 { return Err(Stop::Err(format!("huge allocation {}", n))); } Some(V::I(self.new_obj(st, n) as u128)) }
            Hook::Dealloc => { let a = self.argc(st, c, 0)?; self.locate(st, a, 0)?; self.drop_obj(st, (a >> 32) as u32 - 1, false); None }
            Hook::Realloc => {
                let a = self.argc(st, c, 0)?;
                let old = self.argc(st, c, 1)?;
                let new = self.argc(st, c, 3)?;
                let b = self.new_obj(st, new);
                self.copy(st, b, a, old.min(new) as usize)?;
                self.drop_obj(st, (a >> 32) as u32 - 1, false);
                Some(V::I(b as u128))
            }
            Hook::Nop => Some(zero_val(&c.ret)),
            Hook::Panic => { let n = self.m.funcs[f].name.clone(); return Err(Stop::Panic(format!("panic: {} < {}", n, self.whereami(st)))); }
            Hook::RandomKeys => Some(V::A(Rc::new(vec![V::I(0x1234_5678_9abc_def0), V::I(0x0fed_cba9_8765_4321)]))),
            Hook::HashOne => Some(V::I(0)),
            Hook::Sha256 => { self.sha256(st, c)?; None }
            Hook::None => unreachable!(),
        };
        self.finish_call(st, c.dst, c.normal, r)
    }

    /// The content of everything reachable from the `size` bytes at `addr`, with pointers replaced
    /// by the order in which their targets are met; `None` if any of it is symbolic. Two calls of
    /// the same function on equal keys read equal data. Only commitments (`CommitId::commit_id`) of
    /// types named by the harness are remembered: pure functions of the dependencies, which are
    /// executed for real on the first call.
    fn memo_key(&mut self, st: &State, f: usize, addr: u64, size: usize) -> Option<Vec<u8>> {
        let mut key = (f as u64).to_le_bytes().to_vec();
        let mut objs: Vec<u32> = vec![];
        let (id, off) = self.locate(st, addr, size).ok()?;
        let mut work: Vec<(u32, usize, usize)> = vec![(id, off, size)];
        let mut at = 0;
        while at < work.len() {
            let (id, off, n) = work[at];
            at += 1;
            let o = self.obj(st, id)?;
            if let Some(s) = &o.sym { if s[off..off + n].iter().any(|x| *x != 0) { return None; } }
            key.extend((n as u64).to_le_bytes());
            let mut k = 0;
            while k < n {
                if k + 8 <= n {
                    let mut w = [0u8; 8];
                    w.copy_from_slice(&o.data[off + k..off + k + 8]);
                    let v = u64::from_le_bytes(w);
                    let pid = (v >> 32) as i64 - 1;
                    let po = (v & 0xffff_ffff) as usize;
                    if v < FBASE && pid >= self.globals.len() as i64 {
                        if let Some(t) = self.obj(st, pid as u32) {
                            if po <= t.data.len() {
                                let ix = match objs.iter().position(|x| *x == pid as u32) {
                                    Some(i) => i,
                                    None => { objs.push(pid as u32); work.push((pid as u32, 0, t.data.len())); objs.len() - 1 }
                                };
                                key.push(0xFE);
                                key.extend((ix as u32).to_le_bytes());
                                key.extend((po as u32).to_le_bytes());
                                k += 8;
                                continue;
                            }
                        }
                    }
                    key.push(0xFD);
                    key.extend(w);
                    k += 8;
                } else {
                    key.push(o.data[off + k]);
                    k += 1;
                }
            }
            if key.len() > 1 << 20 { return None; }
        }
        Some(key)
    }

    /// SHA-256 compression: computed when the input is concrete, otherwise an injective
    /// (collision-free) uninterpreted function.
    fn sha256(&mut self, st: &mut State, c: &CallI) -> R<()> {
        let sp = self.argc(st, c, 0)?;
        let bp = self.argc(st, c, 1)?;
        let nb = self.argc(st, c, 2)?;
        let i32t = Ty::Int(32);
        for b in 0..nb {
            self.stats.hash_calls += 1;
            let mut inp = vec![];
            for i in 0..8 { inp.push(self.load(st, &V::I((sp + 4 * i) as u128), &i32t)?); }
            for i in 0..16 { inp.push(self.load(st, &V::I((bp + 64 * b + 4 * i) as u128), &i32t)?); }
            let conc: Option<Vec<u32>> = inp.iter().map(|v| if let V::I(x) = v { Some(*x as u32) } else { None }).collect();
            let out: Vec<V>;
            if let Some(x) = conc {
                let mut s = [0u32; 8];
                s.copy_from_slice(&x[..8]);
                let mut w = [0u32; 16];
                for i in 0..16 { w[i] = x[8 + i].swap_bytes(); }
                crate::sha::compress(&mut s, &w);
                out = s.iter().map(|v| V::I(*v as u128)).collect();
                Rc::make_mut(&mut st.hashes).push(HashEntry { inp: inp.clone(), out: out.clone(), symbolic: false });
            } else {
                self.stats.hash_sym += 1;
                let hs = st.hashes.clone();
                let same = hs.iter().find(|h| h.inp.iter().zip(&inp).all(|(a, b)| match (a, b) { (V::I(x), V::I(y)) => x == y, (V::S(x), V::S(y)) => x == y, _ => false }));
                if let Some(h) = same { out = h.out.clone(); }
                else {
                    let mut o = vec![];
                    for _ in 0..8 { let id = st.nvars; st.nvars += 1; o.push(V::S(self.p.var_id(32, 0x4000_0000 | (id << 7) | 32))); }
                    drop(hs);
                    // the real value; where the model has other values for earlier results, it is as good as any
                    let mut memo = HashMap::new();
                    let x: Vec<u32> = inp.iter().map(|v| self.word(v, &st.model, &mut memo)).collect();
                    let ov = crate::sha::words(&x);
                    let m = Rc::make_mut(&mut st.model);
                    for k in 0..8 { if let V::S(e) = &o[k] { if let N::Var(_, id) = self.p.n(*e) { m.insert(*id, ov[k] as u128); } } }
                    Rc::make_mut(&mut st.hashes).push(HashEntry { inp: inp.clone(), out: o.clone(), symbolic: true });
                    out = o;
                    // equal inputs on this model, unequal results chosen earlier
                    let bad = self.hash_conflicts(st, &st.model);
                    if !bad.is_empty() {
                        let mut goal = self.p.tru;
                        for (i, j) in bad {
                            let (a, b) = (st.hashes[i].clone(), st.hashes[j].clone());
                            let (x, y) = self.hash_axiom(&a.inp, &a.out, &b.inp, &b.out);
                            goal = self.p.and(goal, x);
                            goal = self.p.and(goal, y);
                        }
                        match self.solve(st, goal)? {
                            Some(m) => st.model = Rc::new(m),
                            None => return Err(Stop::Err("hash model".into())),
                        }
                    }
                }
            }
            for i in 0..8 { self.store(st, sp + 4 * i as u64, &i32t, &out[i])?; }
        }
        Ok(())
    }
    fn vec_eq(&mut self, a: &[V], b: &[V], n: usize) -> E {
        let mut acc = self.p.tru;
        for i in 0..n {
            let (x, y) = (self.e(&a[i], 32), self.e(&b[i], 32));
            let q = self.p.eq(x, y);
            acc = self.p.and(acc, q);
        }
        acc
    }
    fn hash_axiom(&mut self, i1: &[V], o1: &[V], i2: &[V], o2: &[V]) -> (E, E) {
        let ein = self.vec_eq(i1, i2, 24);
        let eout = self.vec_eq(o1, o2, 8);
        let eshort = self.vec_eq(o1, o2, 7);
        let nin = self.p.not(ein);
        let a = self.p.or(nin, eout);
        let ns = self.p.not(eshort);
        let b = self.p.or(ns, ein);
        (a, b)
    }

    fn cmp_bytes(&mut self, st: &mut State, a: u64, b: u64, n: usize, eq_only: bool) -> R<V> {
        if n == 0 { return Ok(V::I(0)); }
        let (ai, ao) = self.locate(st, a, n)?;
        let (bi, bo) = self.locate(st, b, n)?;
        let x = self.obj(st, ai).unwrap();
        let y = self.obj(st, bi).unwrap();
        if x.sym.is_none() && y.sym.is_none() {
            let o = x.data[ao..ao + n].cmp(&y.data[bo..bo + n]);
            return Ok(V::I(match o { std::cmp::Ordering::Equal => 0, std::cmp::Ordering::Less => 0xffff_ffff, _ => 1 }));
        }
        // runs
        let mut runs: Vec<(usize, usize, bool)> = vec![]; // start, len, concrete
        let mut i = 0;
        while i < n {
            let con = |k: usize| Self::byte(&x, ao + k).is_ok() && Self::byte(&y, bo + k).is_ok();
            let c0 = con(i);
            let mut j = i + 1;
            while j < n && con(j) == c0 && (c0 || j % 8 != 0) { j += 1; }
            runs.push((i, j - i, c0));
            if c0 && x.data[ao + i..ao + j] != y.data[bo + i..bo + j] { break; }
            i = j;
        }
        let mut acc = self.p.c(32, 0);
        let m1 = self.p.c(32, 0xffff_ffff);
        let p1 = self.p.c(32, 1);
        for (s, l, con) in runs.into_iter().rev() {
            if con {
                match x.data[ao + s..ao + s + l].cmp(&y.data[bo + s..bo + s + l]) {
                    std::cmp::Ordering::Equal => {}
                    std::cmp::Ordering::Less => acc = m1,
                    _ => acc = p1,
                }
            } else {
                let lx = self.load_bytes(&x, ao + s, l);
                let ly = self.load_bytes(&y, bo + s, l);
                let w = 8 * l as u32;
                let (le, re) = (self.e(&lx, w), self.e(&ly, w));
                let eq = self.p.eq(le, re);
                let ne = if eq_only { p1 } else {
                    let (bx, by) = (self.bswap(le), self.bswap(re));
                    let lt = self.p.ult(bx, by);
                    self.p.ite(lt, m1, p1)
                };
                acc = self.p.ite(eq, acc, ne);
            }
        }
        Ok(self.v(acc))
    }
    fn bswap(&mut self, e: E) -> E {
        let w = self.p.w(e);
        let n = w / 8;
        let mut acc: Option<E> = None;
        for k in 0..n {
            let b = self.p.extract(8 * k + 7, 8 * k, e);
            acc = Some(match acc { None => b, Some(h) => self.p.concat(h, b) });
        }
        acc.unwrap()
    }

    fn external(&mut self, st: &mut State, c: &CallI, name: &str) -> R<()> {
        let r: Option<V> = match name {
            "sym_any" => {
                let p = self.argc(st, c, 0)?;
                let n = self.argc(st, c, 1)?;
                let np = self.argc(st, c, 2)?;
                let nl = self.argc(st, c, 3)?;
                let nm = String::from_utf8_lossy(&self.read_concrete(st, np, nl as usize)?).into_owned();
                let mut vars = vec![];
                let mut off = 0;
                while off < n {
                    let k = [8, 4, 2, 1].into_iter().find(|k| off + k <= n).unwrap();
                    let w = 8 * k as u32;
                    // variable ids are per path position, so that equal prefixes share expressions
                    let id = st.nvars;
                    st.nvars += 1;
                    let key = (id << 7) | w;
                    let e = self.p.var_id(w, key);
                    vars.push((key, w));
                    self.store(st, p + off, &Ty::Int(w), &V::S(e))?;
                    off += k;
                }
                st.inputs.push((nm.into(), vars, n));
                None
            }
            "sym_assume" => {
                let v = Self::argv(st, c, 0);
                let w = c.args[0].0.width();
                let e = self.e(&v, w);
                let z = self.p.c(w, 0);
                let q = self.p.eq(e, z);
                let q = self.p.not(q);
                if let Some(k) = self.p.k(q) { if k == 0 { return Err(Stop::Infeasible); } }
                else if self.eval(st, q) != 1 {
                    match self.solve(st, q)? {
                        None => return Err(Stop::Infeasible),
                        Some(m) => { st.model = Rc::new(m); self.add_pc(st, q); }
                    }
                } else { self.add_pc(st, q); }
                None
            }
            "sym_concrete" => Some(V::I(self.argc(st, c, 0)? as u128)),
            "sym_check" => {
                let np = self.argc(st, c, 0)?;
                let nl = self.argc(st, c, 1)?;
                let id = String::from_utf8_lossy(&self.read_concrete(st, np, nl as usize)?).into_owned();
                let (prop, what) = match id.split_once('|') { Some((a, b)) => (a.to_string(), b.to_string()), None => (id.clone(), id.clone()) };
                if self.cfg.prop.as_ref().map(|p| p == &prop).unwrap_or(true) {
                    let v = Self::argv(st, c, 2);
                    let w = c.args[2].0.width();
                    let e = self.e(&v, w);
                    let z = self.p.c(w, 0);
                    let bad = self.p.eq(e, z);
                    self.stats.checks += 1;
                    let ent = self.stats.checks_by_id.entry(id.clone()).or_default();
                    ent.0 += 1;
                    if let Some(k) = self.p.k(bad) {
                        self.stats.checks_const += 1;
                        if k == 1 {
                            let model = st.model.clone();
                            self.violation(st, &prop, "check", what, &model, None);
                            self.end_path(st);
                            return Err(Stop::Infeasible);
                        }
                    } else {
                        ent.1 += 1;
                        self.stats.checks_solver += 1;
                        let good = self.p.not(bad);
                        if !st.facts.contains(&good) {
                            if let Some(m) = self.solve(st, bad)? {
                                self.violation(st, &prop, "check", what, &m, Some(bad));
                                match self.solve(st, good)? {
                                    None => return Err(Stop::Infeasible),
                                    Some(m) => { st.model = Rc::new(m); self.add_pc(st, good); }
                                }
                            }
                        }
                    }
                }
                None
            }
            "sym_cover" => {
                let np = self.argc(st, c, 0)?;
                let nl = self.argc(st, c, 1)?;
                let id = String::from_utf8_lossy(&self.read_concrete(st, np, nl as usize)?).into_owned();
                Rc::make_mut(&mut st.covers).insert(id);
                None
            }
            "sym_memo" => {
                let (a, n, size) = (self.argc(st, c, 0)?, self.argc(st, c, 1)?, self.argc(st, c, 2)?);
                let s = String::from_utf8_lossy(&self.read_concrete(st, a, n as usize)?).into_owned();
                if !self.memo_pats.iter().any(|x| x.0 == s) { self.memo_pats.push((s, size as usize)); self.memo_fns.iter_mut().for_each(|x| *x = 0); }
                None
            }
            "sym_is_symbolic" => Some(V::I(1)),
            "memcmp" | "bcmp" => {
                let a = self.argc(st, c, 0)?;
                let b = self.argc(st, c, 1)?;
                let n = self.argc(st, c, 2)? as usize;
                Some(self.cmp_bytes(st, a, b, n, name == "bcmp")?)
            }
            "strlen" => {
                let a = self.argc(st, c, 0)?;
                let (i, off) = self.locate(st, a, 1)?;
                let o = self.obj(st, i).unwrap();
                let mut k = 0;
                while o.data[off + k] != 0 { k += 1; }
                Some(V::I(k as u128))
            }
            "memcpy" | "memmove" => {
                let d = self.argc(st, c, 0)?;
                let s = self.argc(st, c, 1)?;
                let n = self.argc(st, c, 2)? as usize;
                self.copy(st, d, s, n)?;
                Some(V::I(d as u128))
            }
            "memset" => { let d = self.argc(st, c, 0)?; self.memset(st, c)?; Some(V::I(d as u128)) }
            "write" => { let n = Self::argv(st, c, 2); Some(n) }
            _ if name.starts_with("llvm.") => return self.intrinsic(st, c, name),
            _ if name.contains("__rust_no_alloc_shim") => None,
            _ if name == "__cxa_thread_atexit_impl" => Some(V::I(0)),
            _ => return Err(Stop::Err(format!("call to external {} in {}", name, self.whereami(st)))),
        };
        self.finish_call(st, c.dst, c.normal, r)
    }
    fn memset(&mut self, st: &mut State, c: &CallI) -> R<()> {
        let d = self.argc(st, c, 0)?;
        let n = self.argc(st, c, 2)? as usize;
        let v = Self::argv(st, c, 1);
        if n == 0 { return Ok(()); }
        let w = c.args[1].0.width();
        let v = if w == 8 { v } else { match v { V::I(x) => V::I(mask(8, x)), V::S(e) => { let x = self.p.extract(7, 0, e); self.v(x) } v => v } };
        let (id, off) = self.locate(st, d, n)?;
        let o = self.obj_mut(st, id)?;
        match v {
            V::I(x) => { for k in 0..n { o.data[off + k] = x as u8; } if let Some(s) = &mut o.sym { for k in 0..n { s[off + k] = 0; } } }
            V::S(e) => { let len = o.data.len(); let s = o.sym.get_or_insert_with(|| vec![0; len]); for k in 0..n { s[off + k] = e; } }
            _ => {}
        }
        Ok(())
    }

    fn intrinsic(&mut self, st: &mut State, c: &CallI, name: &str) -> R<()> {
        let base = &name[5..];
        let starts = |s: &str| base.starts_with(s);
        let r: Option<V>;
        if starts("lifetime") || starts("assume") || starts("experimental.noalias") || starts("dbg") || starts("x86.sse2.pause") || starts("sideeffect") || starts("va_") || starts("donothing") { r = None; }
        else if starts("memcpy") || starts("memmove") {
            let d = self.argc(st, c, 0)?;
            let s = self.argc(st, c, 1)?;
            let n = self.argc(st, c, 2)? as usize;
            self.copy(st, d, s, n)?;
            r = None;
        }
        else if starts("memset") { self.memset(st, c)?; r = None; }
        else if starts("threadlocal.address") || starts("expect") || starts("launder") || starts("ssa.copy") { r = Some(Self::argv(st, c, 0)); }
        else if starts("is.constant") { r = Some(V::I(0)); }
        else if starts("trap") || starts("ubsantrap") || starts("debugtrap") { return Err(Stop::Panic(format!("trap in {}", self.whereami(st)))); }
        else if starts("vector.reduce.") {
            let t = c.args[0].0.clone();
            let ew = t.elem(0).width();
            let xs = match Self::argv(st, c, 0) { V::A(x) => x, _ => return Err(Stop::Err("reduce".into())) };
            let k = base["vector.reduce.".len()..].split('.').next().unwrap();
            let mut acc = xs[0].clone();
            for x in xs[1..].iter() {
                acc = match k {
                    "or" => self.bin(Bop::Or, ew, &acc, x)?,
                    "and" => self.bin(Bop::And, ew, &acc, x)?,
                    "add" => self.bin(Bop::Add, ew, &acc, x)?,
                    "xor" => self.bin(Bop::Xor, ew, &acc, x)?,
                    _ => return Err(Stop::Err(format!("intrinsic {}", name))),
                };
            }
            r = Some(acc);
        }
        else if base.contains("with.overflow") {
            let w = c.args[0].0.width();
            let (a, b) = (Self::argv(st, c, 0), Self::argv(st, c, 1));
            let signed = base.starts_with('s');
            let kind = &base[1..4];
            let (res, ov) = if let (V::I(x), V::I(y)) = (&a, &b) {
                if signed {
                    let (x, y) = (sx(w, *x), sx(w, *y));
                    let (r, o) = match kind { "add" => x.overflowing_add(y), "sub" => x.overflowing_sub(y), _ => x.overflowing_mul(y) };
                    let m = mask(w, r as u128);
                    (V::I(m), o || sx(w, m) != r)
                } else {
                    let (r, o) = match kind { "add" => x.overflowing_add(*y), "sub" => x.overflowing_sub(*y), _ => x.overflowing_mul(*y) };
                    (V::I(mask(w, r)), o || mask(w, r) != r)
                }
            } else {
                let (x, y) = (self.e(&a, w), self.e(&b, w));
                let ww = if kind == "mul" { 2 * w } else { w + 1 };
                if ww > 128 { return Err(Stop::Err(format!("{} symbolic", name))); }
                let (x2, y2) = if signed { (self.p.sext(ww, x), self.p.sext(ww, y)) } else { (self.p.zext(ww, x), self.p.zext(ww, y)) };
                let r2 = match kind { "add" => self.p.add(x2, y2), "sub" => self.p.sub(x2, y2), _ => self.p.mul(x2, y2) };
                let res = match kind { "add" => self.p.add(x, y), "sub" => self.p.sub(x, y), _ => self.p.mul(x, y) };
                let back = if signed { self.p.sext(ww, res) } else { self.p.zext(ww, res) };
                let q = self.p.eq(back, r2);
                let ov = self.p.not(q);
                let v = V::A(Rc::new(vec![self.v(res), self.v(ov)]));
                return self.finish_call(st, c.dst, c.normal, Some(v));
            };
            r = Some(V::A(Rc::new(vec![res, V::I(ov as u128)])));
        }
        else {
            let ty = c.args[0].0.clone();
            if let Ty::Vector(n, et) = &*ty {
                let args: Vec<V> = (0..c.args.len()).map(|i| Self::argv(st, c, i)).collect();
                let mut out = vec![];
                for i in 0..*n as usize {
                    let la: Vec<V> = args.iter().map(|a| match a { V::A(x) => x[i].clone(), v => v.clone() }).collect();
                    let rt = c.ret.elem(0).width();
                    out.push(self.scalar_intrinsic(base, et.width(), rt, &la)?);
                }
                r = Some(V::A(Rc::new(out)));
            } else {
                let args: Vec<V> = (0..c.args.len()).map(|i| Self::argv(st, c, i)).collect();
                let rt = match &*c.ret { Ty::Void => 0, t => t.width() };
                r = Some(self.scalar_intrinsic(base, ty.width(), rt, &args)?);
            }
        }
        self.finish_call(st, c.dst, c.normal, r)
    }

    fn scalar_intrinsic(&mut self, base: &str, w: u32, rw: u32, a: &[V]) -> R<V> {
        let op = base.split(".i").next().unwrap();
        let all = a.iter().all(|v| matches!(v, V::I(_)));
        let k = |i: usize| -> u128 { if let V::I(x) = a[i] { x } else { 0 } };
        if all {
            let m = |x: u128| V::I(mask(w, x));
            let mx = mask(w, u128::MAX);
            return Ok(match op {
                "umax" => V::I(k(0).max(k(1))),
                "umin" => V::I(k(0).min(k(1))),
                "smax" => m(sx(w, k(0)).max(sx(w, k(1))) as u128),
                "smin" => m(sx(w, k(0)).min(sx(w, k(1))) as u128),
                "usub.sat" => V::I(k(0).saturating_sub(k(1))),
                "uadd.sat" => V::I(match k(0).checked_add(k(1)) { Some(s) if s <= mx => s, _ => mx }),
                "abs" => m(sx(w, k(0)).unsigned_abs()),
                "ctpop" => V::I(k(0).count_ones() as u128),
                "ctlz" => V::I(if k(0) == 0 { w as u128 } else { (k(0).leading_zeros() - (128 - w)) as u128 }),
                "cttz" => V::I(if k(0) == 0 { w as u128 } else { k(0).trailing_zeros() as u128 }),
                "bswap" => { let n = w / 8; let mut r = 0; for i in 0..n { r |= ((k(0) >> (8 * i)) & 0xff) << (8 * (n - 1 - i)); } V::I(r) }
                "bitreverse" => { let mut r = 0; for i in 0..w { r |= ((k(0) >> i) & 1) << (w - 1 - i); } V::I(r) }
                "fshl" => { let s = (k(2) % w as u128) as u32; if s == 0 { V::I(k(0)) } else { m((k(0) << s) | (k(1) >> (w - s))) } }
                "fshr" => { let s = (k(2) % w as u128) as u32; if s == 0 { V::I(k(1)) } else { m((k(0) << (w - s)) | (k(1) >> s)) } }
                "ucmp" => V::I(match k(0).cmp(&k(1)) { std::cmp::Ordering::Less => mask(rw, u128::MAX), std::cmp::Ordering::Equal => 0, _ => 1 }),
                "scmp" => V::I(match sx(w, k(0)).cmp(&sx(w, k(1))) { std::cmp::Ordering::Less => mask(rw, u128::MAX), std::cmp::Ordering::Equal => 0, _ => 1 }),
                "ptrmask" => V::I(k(0) & k(1)),
                _ => return Err(Stop::Err(format!("intrinsic llvm.{}", base))),
            });
        }
        let e = |s: &mut Self, i: usize| -> E { s.e(&a[i].clone(), w) };
        let r = match op {
            "umax" | "umin" | "smax" | "smin" => {
                let (x, y) = (e(self, 0), e(self, 1));
                let lt = if op.starts_with('u') { self.p.ult(x, y) } else { self.p.slt(x, y) };
                if op.ends_with("max") { self.p.ite(lt, y, x) } else { self.p.ite(lt, x, y) }
            }
            "usub.sat" => { let (x, y) = (e(self, 0), e(self, 1)); let lt = self.p.ult(x, y); let d = self.p.sub(x, y); let z = self.p.c(w, 0); self.p.ite(lt, z, d) }
            "uadd.sat" => { let (x, y) = (e(self, 0), e(self, 1)); let s = self.p.add(x, y); let lt = self.p.ult(s, x); let z = self.p.c(w, u128::MAX); self.p.ite(lt, z, s) }
            "bswap" => { let x = e(self, 0); self.bswap(x) }
            "ucmp" | "scmp" => {
                let (x, y) = (e(self, 0), e(self, 1));
                let lt = if op == "ucmp" { self.p.ult(x, y) } else { self.p.slt(x, y) };
                let eq = self.p.eq(x, y);
                let (m1, z, o) = (self.p.c(rw, u128::MAX), self.p.c(rw, 0), self.p.c(rw, 1));
                let t = self.p.ite(lt, m1, o);
                self.p.ite(eq, z, t)
            }
            "abs" => { let x = e(self, 0); let z = self.p.c(w, 0); let n = self.p.sub(z, x); let lt = self.p.slt(x, z); self.p.ite(lt, n, x) }
            "fshl" | "fshr" => {
                if let V::I(s) = a[2] {
                    let s = (s % w as u128) as u32;
                    let (x, y) = (e(self, 0), e(self, 1));
                    if s == 0 { if op == "fshl" { x } else { y } }
                    else {
                        let s = if op == "fshl" { s } else { w - s };
                        let hi = self.p.extract(w - s - 1, 0, x);
                        let lo = self.p.extract(w - 1, w - s, y);
                        self.p.concat(hi, lo)
                    }
                } else { return Err(Stop::Err(format!("symbolic {}", base))) }
            }
            "ctpop" => {
                let x = e(self, 0);
                let mut acc = self.p.c(w, 0);
                for i in 0..w { let b = self.p.extract(i, i, x); let b = self.p.zext(w, b); acc = self.p.add(acc, b); }
                acc
            }
            "ctlz" | "cttz" => {
                let x = e(self, 0);
                let mut acc = self.p.c(w, w as u128);
                for j in 0..w {
                    let i = if op == "ctlz" { j } else { w - 1 - j };
                    let b = self.p.extract(i, i, x);
                    let n = if op == "ctlz" { w - 1 - i } else { i };
                    let nc = self.p.c(w, n as u128);
                    acc = self.p.ite(b, nc, acc);
                }
                acc
            }
            _ => return Err(Stop::Err(format!("symbolic intrinsic llvm.{}", base))),
        };
        Ok(self.v(r))
    }
}

/// Vectors whose lanes are not bytes are packed in memory, as the integer of their bits.
fn sub_byte(t: &Ty) -> Option<u32> {
    match t {
        Ty::Vector(_, e) if e.width() % 8 != 0 && t.width() % 8 == 0 && t.width() <= 128 => Some(t.width()),
        _ => None,
    }
}
fn t_is_vec(t: &Ty) -> bool { matches!(t, Ty::Vector(..)) }
fn has_ptr(t: &Ty) -> bool {
    match t {
        Ty::Ptr => true,
        Ty::Struct(fs, _) => fs.iter().any(|f| has_ptr(f)),
        Ty::Array(_, t) | Ty::Vector(_, t) => has_ptr(t),
        _ => false,
    }
}
fn zero_val(t: &Ty) -> V {
    match t {
        Ty::Array(..) | Ty::Struct(..) | Ty::Vector(..) => V::A(Rc::new((0..t.nelems()).map(|i| zero_val(&t.elem(i))).collect())),
        _ => V::I(0),
    }
}
impl Exec {
    /// Gives the oldest pending state to a new process when there is room for one. In the new
    /// process everything else is dropped and the current path is left (`Handed`).
    fn maybe_split(&mut self) -> R<()> {
        if self.stack.is_empty() || !self.sh.room() || self.last_split.elapsed().as_millis() < 20 { return Ok(()); }
        if !self.sh.enter() { return Ok(()); }
        match crate::par::fork() {
            Some(true) => {
                let s = self.stack.swap_remove(0);
                self.stack = vec![s];
                self.stats = Stats::default();
                self.seen_fn.iter_mut().for_each(|x| *x = false);
                self.viols.clear();
                self.smt.fresh();
                self.last_split = std::time::Instant::now();
                if let Some(p) = &mut self.prof { for x in p.iter_mut() { *x = (0, 0); } }
                Err(Stop::Handed)
            }
            Some(false) => {
                self.stack.remove(0);
                self.last_split = std::time::Instant::now();
                Ok(())
            }
            None => { self.sh.leave(); Ok(()) }
        }
    }
}
