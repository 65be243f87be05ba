//! LLVM IR text parser (the subset rustc emits), lazily per function.
use std::collections::HashMap;
use std::sync::{Arc, OnceLock};

pub type TyR = Arc<Ty>;
#[derive(Debug, PartialEq, Clone)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float(u32),
    Array(u64, TyR),
    Vector(u64, TyR),
    Struct(Vec<TyR>, bool),
    Meta,
    Opaque,
}

impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Meta | Ty::Opaque => 0,
            Ty::Int(w) => {
                let b = (*w as u64 + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Float(w) => *w as u64 / 8,
            Ty::Ptr => 8,
            Ty::Array(n, t) => n * t.size(),
            Ty::Vector(n, t) => match &**t {
                Ty::Int(w) => (n * *w as u64 + 7) / 8,
                t => n * t.size(),
            },
            Ty::Struct(fs, packed) => {
                let mut off = 0;
                for f in fs {
                    if !packed {
                        let a = f.align();
                        off = (off + a - 1) / a * a;
                    }
                    off += f.size();
                }
                if !packed {
                    let a = self.align();
                    off = (off + a - 1) / a * a;
                }
                off
            }
        }
    }
    /// Bytes actually written by a store (integers have no tail padding).
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64 + 7) / 8,
            t => t.size(),
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = (*w as u64 + 7) / 8;
                if b <= 1 { 1 } else if b <= 2 { 2 } else if b <= 4 { 4 } else if b <= 8 { 8 } else { 16 }
            }
            Ty::Float(w) => *w as u64 / 8,
            Ty::Ptr => 8,
            Ty::Array(_, t) => t.align(),
            Ty::Vector(_, _) => self.size().next_power_of_two().max(1),
            Ty::Struct(fs, packed) => if *packed { 1 } else { fs.iter().map(|f| f.align()).max().unwrap_or(1) },
            _ => 1,
        }
    }
    /// byte offset of a struct field
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(fs, packed) => {
                let mut off = 0;
                for (k, f) in fs.iter().enumerate() {
                    if !packed {
                        let a = f.align();
                        off = (off + a - 1) / a * a;
                    }
                    if k == i { return off; }
                    off += f.size();
                }
                panic!("field index")
            }
            Ty::Array(_, t) | Ty::Vector(_, t) => t.size() * i as u64,
            _ => panic!("field_off of {:?}", self),
        }
    }
    pub fn elem(&self, i: usize) -> TyR {
        match self {
            Ty::Struct(fs, _) => fs[i].clone(),
            Ty::Array(_, t) | Ty::Vector(_, t) => t.clone(),
            _ => panic!("elem"),
        }
    }
    pub fn nelems(&self) -> usize {
        match self {
            Ty::Struct(fs, _) => fs.len(),
            Ty::Array(n, _) | Ty::Vector(n, _) => *n as usize,
            _ => 0,
        }
    }
    pub fn width(&self) -> u32 {
        match self {
            Ty::Int(w) | Ty::Float(w) => *w,
            Ty::Ptr => 64,
            Ty::Vector(n, t) => *n as u32 * t.width(),
            _ => panic!("width of {:?}", self),
        }
    }
}

#[derive(Debug, Clone)]
pub enum Cv {
    I(u128),
    A(Vec<Cv>),
}

#[derive(Debug, Clone)]
pub enum Op {
    R(u32),
    C(Cv),
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Bop { Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr }
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Cop { ZExt, SExt, Trunc, Bitcast }

#[derive(Debug, Clone)]
pub enum Callee {
    Func(usize),
    Extern(String),
    Indirect(Op),
    Asm(String),
}

#[derive(Debug, Clone)]
pub struct CallI {
    pub dst: Option<u32>,
    pub ret: TyR,
    pub callee: Callee,
    pub args: Vec<(TyR, Op)>,
    pub normal: Option<u32>,
}

#[derive(Debug, Clone)]
pub enum Ins {
    Bin { dst: u32, op: Bop, w: u32, lanes: u32, a: Op, b: Op },
    Icmp { dst: u32, p: Pred, w: u32, lanes: u32, a: Op, b: Op },
    Cast { dst: u32, op: Cop, from: TyR, to: TyR, a: Op },
    Load { dst: u32, ty: TyR, p: Op },
    Store { ty: TyR, v: Op, p: Op },
    Alloca { dst: u32, size: u64, n: Op },
    Gep { dst: u32, base: Op, off: i64, var: Vec<(Op, u32, i64)> },
    Select { dst: u32, ty: TyR, c: Op, cvec: bool, a: Op, b: Op },
    Call(Box<CallI>),
    ExtractValue { dst: u32, a: Op, idx: Vec<u32> },
    InsertValue { dst: u32, a: Op, aty: TyR, v: Op, idx: Vec<u32> },
    ExtractElement { dst: u32, a: Op, i: Op },
    InsertElement { dst: u32, a: Op, ty: TyR, v: Op, i: Op },
    Shuffle { dst: u32, a: Op, b: Op, n: usize, mask: Vec<i64> },
    Copy { dst: u32, a: Op },
    Rmw { dst: u32, op: String, ty: TyR, p: Op, v: Op },
    CmpXchg { dst: u32, ty: TyR, p: Op, c: Op, n: Op },
    Br(u32),
    CondBr { c: Op, t: u32, f: u32 },
    Switch { w: u32, v: Op, d: u32, cases: Vec<(u128, u32)> },
    Ret(Option<Op>),
    Unreachable,
    Nop,
    Unsupported(String),
}

#[derive(Debug, Default)]
pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, Op)>)>, // dst, [(pred block, value)]
    pub ins: Vec<Ins>,
}

#[derive(Debug)]
pub struct Body {
    pub nregs: usize,
    pub nparams: usize,
    pub blocks: Vec<Block>,
}

pub struct Func {
    pub name: String,
    header: (usize, usize),
    body: Option<(usize, usize)>,
    pub parsed: OnceLock<Body>,
}

pub struct Global {
    pub name: String,
    pub init: Option<(usize, usize)>,
    pub ty: TyR,
    pub constant: bool,
}

pub struct Module {
    pub text: String,
    pub funcs: Vec<Func>,
    pub fidx: HashMap<String, usize>,
    pub globals: Vec<Global>,
    pub gidx: HashMap<String, usize>,
    pub types: HashMap<String, TyR>,
    pub aliases: HashMap<String, String>,
}

pub const FBASE: u64 = 0x4000_0000_0000_0000;
pub fn global_addr(i: usize) -> u64 { ((i as u64) + 1) << 32 }
pub fn func_addr(i: usize) -> u64 { FBASE | ((i as u64) << 4) }

#[derive(Debug, Clone, PartialEq)]
enum T {
    W(String),      // word / number
    L(String),      // %local
    G(String),      // @global
    M,              // metadata ref
    CS(Vec<u8>),    // c"..."
    S(String),      // "..."
    P(char),
    Attr,           // #n
    Eof,
}

struct Lx<'a> {
    m: &'a Module,
    s: &'a [u8],
    i: usize,
    end: usize,
    tok: T,
    prev_end: usize,
}

fn is_id(c: u8) -> bool { c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-' }

impl<'a> Lx<'a> {
    fn new(m: &'a Module, a: usize, b: usize) -> Self {
        let mut l = Lx { m, s: m.text.as_bytes(), i: a, end: b, tok: T::Eof, prev_end: a };
        l.bump();
        l
    }
    fn bump(&mut self) -> T {
        let n = self.lex();
        std::mem::replace(&mut self.tok, n)
    }
    fn qstr(&mut self) -> Vec<u8> {
        // at opening quote
        self.i += 1;
        let mut v = vec![];
        while self.s[self.i] != b'"' {
            if self.s[self.i] == b'\\' {
                if self.s[self.i + 1] == b'\\' {
                    v.push(b'\\');
                    self.i += 2;
                } else {
                    let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap();
                    v.push(u8::from_str_radix(h, 16).unwrap());
                    self.i += 3;
                }
            } else {
                v.push(self.s[self.i]);
                self.i += 1;
            }
        }
        self.i += 1;
        v
    }
    fn ident(&mut self) -> String {
        if self.i < self.end && self.s[self.i] == b'"' {
            return String::from_utf8_lossy(&self.qstr()).into_owned();
        }
        let a = self.i;
        while self.i < self.end && is_id(self.s[self.i]) { self.i += 1; }
        std::str::from_utf8(&self.s[a..self.i]).unwrap().to_string()
    }
    fn lex(&mut self) -> T {
        self.prev_end = self.i;
        loop {
            if self.i >= self.end { return T::Eof; }
            let c = self.s[self.i];
            if c.is_ascii_whitespace() { self.i += 1; continue; }
            if c == b';' {
                while self.i < self.end && self.s[self.i] != b'\n' { self.i += 1; }
                continue;
            }
            break;
        }
        let c = self.s[self.i];
        match c {
            b'%' => { self.i += 1; T::L(self.ident()) }
            b'@' => { self.i += 1; T::G(self.ident()) }
            b'!' => {
                self.i += 1;
                self.ident();
                T::M
            }
            b'#' => { self.i += 1; self.ident(); T::Attr }
            b'"' => { let v = self.qstr(); T::S(String::from_utf8_lossy(&v).into_owned()) }
            b'c' if self.i + 1 < self.end && self.s[self.i + 1] == b'"' => { self.i += 1; T::CS(self.qstr()) }
            _ if is_id(c) => T::W(self.ident()),
            _ => { self.i += 1; T::P(c as char) }
        }
    }
    fn is(&self, c: char) -> bool { self.tok == T::P(c) }
    fn eat(&mut self, c: char) -> bool { if self.is(c) { self.bump(); true } else { false } }
    fn expect(&mut self, c: char) { if !self.eat(c) { self.err(&format!("expected {}", c)) } }
    fn err(&self, s: &str) -> ! {
        let a = self.i.saturating_sub(200);
        panic!("IR parse: {} near {:?}: ...{}<<HERE>>{}", s, self.tok,
            String::from_utf8_lossy(&self.s[a..self.i]),
            String::from_utf8_lossy(&self.s[self.i..(self.i + 80).min(self.s.len())]))
    }
    fn isw(&self, w: &str) -> bool { matches!(&self.tok, T::W(x) if x == w) }
    fn eatw(&mut self, w: &str) -> bool { if self.isw(w) { self.bump(); true } else { false } }
    fn word(&mut self) -> String { match self.bump() { T::W(w) => w, _ => self.err("word") } }
    fn num(&mut self) -> i128 {
        let w = self.word();
        w.parse().unwrap_or_else(|_| self.err("number"))
    }
    fn skip_parens(&mut self) {
        let mut d = 0;
        loop {
            match self.tok {
                T::P('(') => d += 1,
                T::P(')') => { d -= 1; if d == 0 { self.bump(); return; } }
                T::Eof => self.err("parens"),
                _ => {}
            }
            self.bump();
        }
    }
    fn is_type_start(&self) -> bool {
        match &self.tok {
            T::W(w) => {
                matches!(w.as_str(), "ptr" | "void" | "float" | "double" | "half" | "fp128" | "x86_fp80" | "metadata" | "label" | "token")
                    || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()))
            }
            T::P('{') | T::P('[') | T::P('<') => true,
            T::L(_) => true,
            _ => false,
        }
    }
    /// skip attributes standing before a type
    fn skip_attrs_to_type(&mut self) {
        while !self.is_type_start() {
            match self.tok {
                T::W(_) | T::S(_) | T::Attr => { self.bump(); if self.is('(') { self.skip_parens(); } }
                _ => self.err("attr/type"),
            }
        }
    }
    fn ty(&mut self) -> TyR {
        match self.bump() {
            T::W(w) => match w.as_str() {
                "ptr" => {
                    if self.eatw("addrspace") { self.skip_parens(); }
                    Arc::new(Ty::Ptr)
                }
                "void" => Arc::new(Ty::Void),
                "float" => Arc::new(Ty::Float(32)),
                "half" => Arc::new(Ty::Float(16)),
                "double" => Arc::new(Ty::Float(64)),
                "fp128" => Arc::new(Ty::Float(128)),
                "x86_fp80" => Arc::new(Ty::Float(80)),
                "metadata" | "label" | "token" => Arc::new(Ty::Meta),
                _ => Arc::new(Ty::Int(w[1..].parse().unwrap_or_else(|_| self.err("type")))),
            },
            T::L(n) => self.m.types.get(&n).cloned().unwrap_or_else(|| Arc::new(Ty::Opaque)),
            T::P('[') => {
                let n = self.num() as u64;
                if !self.eatw("x") { self.err("x") }
                let t = self.ty();
                self.expect(']');
                Arc::new(Ty::Array(n, t))
            }
            T::P('{') => {
                let fs = self.ty_list('}');
                Arc::new(Ty::Struct(fs, false))
            }
            T::P('<') => {
                if self.eat('{') {
                    let fs = self.ty_list('}');
                    self.expect('>');
                    Arc::new(Ty::Struct(fs, true))
                } else {
                    let n = self.num() as u64;
                    if !self.eatw("x") { self.err("x") }
                    let t = self.ty();
                    self.expect('>');
                    Arc::new(Ty::Vector(n, t))
                }
            }
            _ => self.err("type"),
        }
    }
    fn ty_list(&mut self, close: char) -> Vec<TyR> {
        let mut v = vec![];
        if self.eat(close) { return v; }
        loop {
            v.push(self.ty());
            if self.eat(close) { return v; }
            self.expect(',');
        }
    }
    fn sym_addr(&self, n: &str) -> u128 {
        let mut n = n;
        while let Some(a) = self.m.aliases.get(n) { n = a; }
        if let Some(i) = self.m.gidx.get(n) { return global_addr(*i) as u128; }
        if let Some(i) = self.m.fidx.get(n) { return func_addr(*i) as u128; }
        panic!("unknown symbol @{}", n)
    }
    fn zero(t: &Ty) -> Cv {
        match t {
            Ty::Int(_) | Ty::Ptr | Ty::Float(_) => Cv::I(0),
            Ty::Array(..) | Ty::Struct(..) | Ty::Vector(..) => Cv::A((0..t.nelems()).map(|i| Self::zero(&t.elem(i))).collect()),
            _ => Cv::I(0),
        }
    }
    /// constant of a known type
    fn cst(&mut self, t: &TyR) -> Cv {
        let mask = |w: u32, v: i128| if w >= 128 { v as u128 } else { (v as u128) & ((1u128 << w) - 1) };
        match self.bump() {
            T::W(w) => match w.as_str() {
                "true" => Cv::I(1),
                "false" => Cv::I(0),
                "null" | "zeroinitializer" | "undef" | "poison" | "none" => Self::zero(t),
                "splat" => {
                    self.expect('(');
                    let et = self.ty();
                    let c = self.cst(&et);
                    self.expect(')');
                    Cv::A(vec![c; t.nelems()])
                }
                "getelementptr" => {
                    while !self.is('(') { self.bump(); if self.isw("inrange") { self.bump(); self.skip_parens(); } }
                    self.expect('(');
                    let st = self.ty();
                    self.expect(',');
                    let bt = self.ty();
                    let base = match self.cst(&bt) { Cv::I(v) => v, _ => self.err("gep base") };
                    let mut off: i64 = 0;
                    let mut cur = st;
                    let mut first = true;
                    while self.eat(',') {
                        let it = self.ty();
                        let v = match self.cst(&it) { Cv::I(v) => sext(v, it.width()), _ => self.err("gep idx") };
                        if first { off += v as i64 * cur.size() as i64; first = false; }
                        else { off += cur.field_off(v as usize) as i64; cur = cur.elem(v as usize); }
                    }
                    self.expect(')');
                    Cv::I((base as u64).wrapping_add(off as u64) as u128)
                }
                "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "zext" | "addrspacecast" | "ptrtoaddr" => {
                    self.expect('(');
                    let ft = self.ty();
                    let c = self.cst(&ft);
                    if !self.eatw("to") { self.err("to") }
                    let tt = self.ty();
                    self.expect(')');
                    match c { Cv::I(v) => Cv::I(mask(tt.width(), v as i128)), c => c }
                }
                "sub" | "add" | "xor" | "mul" => {
                    while !self.is('(') { self.bump(); }
                    self.expect('(');
                    let at = self.ty();
                    let a = self.cst(&at);
                    self.expect(',');
                    let bt = self.ty();
                    let b = self.cst(&bt);
                    self.expect(')');
                    match (a, b) {
                        (Cv::I(a), Cv::I(b)) => Cv::I(mask(at.width(), match w.as_str() { "sub" => a.wrapping_sub(b), "add" => a.wrapping_add(b), "mul" => a.wrapping_mul(b), _ => a ^ b } as i128)),
                        _ => self.err("cexpr"),
                    }
                }
                _ => {
                    match &**t {
                        Ty::Int(wd) => {
                            if let Ok(v) = w.parse::<i128>() { Cv::I(mask(*wd, v)) }
                            else if let Ok(v) = w.parse::<u128>() { Cv::I(v) }
                            else { self.err("int const") }
                        }
                        Ty::Float(_) => {
                            if let Some(h) = w.strip_prefix("0x") { Cv::I(u128::from_str_radix(h, 16).unwrap_or(0)) } else { 
                                // decimal float: swallow the rest (e.g. 1.0e+00)
                                let f: f64 = w.trim_end_matches('e').parse().unwrap_or(0.0);
                                if self.is('+') { self.bump(); self.bump(); }
                                Cv::I(f.to_bits() as u128)
                            }
                        }
                        _ => self.err("const"),
                    }
                }
            },
            T::G(n) => Cv::I(self.sym_addr(&n)),
            T::CS(b) => Cv::A(b.into_iter().map(|x| Cv::I(x as u128)).collect()),
            T::P('[') => { let v = self.cst_list(']'); Cv::A(v) }
            T::P('{') => { let v = self.cst_list('}'); Cv::A(v) }
            T::P('<') => {
                if self.eat('{') { let v = self.cst_list('}'); self.expect('>'); Cv::A(v) }
                else { let v = self.cst_list('>'); Cv::A(v) }
            }
            T::M => Cv::I(0),
            _ => self.err("const"),
        }
    }
    fn cst_list(&mut self, close: char) -> Vec<Cv> {
        let mut v = vec![];
        if self.eat(close) { return v; }
        loop {
            let t = self.ty();
            v.push(self.cst(&t));
            if self.eat(close) { return v; }
            self.expect(',');
        }
    }
}

pub fn sext(v: u128, w: u32) -> i128 {
    if w == 0 || w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) }
}

struct Fx<'a> {
    lx: Lx<'a>,
    regs: HashMap<String, u32>,
    blocks: HashMap<String, u32>,
}

impl<'a> Fx<'a> {
    fn reg(&mut self, n: String) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n).or_insert(k)
    }
    fn bb(&mut self, n: String) -> u32 {
        let k = self.blocks.len() as u32;
        *self.blocks.entry(n).or_insert(k)
    }
    fn op(&mut self, t: &TyR) -> Op {
        if let T::L(_) = self.lx.tok {
            if let T::L(n) = self.lx.bump() { return Op::R(self.reg(n)); }
        }
        if **t == Ty::Meta {
            // metadata operand: skip till , or )
            let mut d = 0;
            loop {
                match self.lx.tok {
                    T::P('(') | T::P('{') => d += 1,
                    T::P(')') | T::P('}') if d > 0 => d -= 1,
                    T::P(',') | T::P(')') if d == 0 => break,
                    T::Eof => self.lx.err("meta"),
                    _ => {}
                }
                self.lx.bump();
            }
            return Op::C(Cv::I(0));
        }
        Op::C(self.lx.cst(t))
    }
    fn tyop(&mut self) -> (TyR, Op) {
        let t = self.lx.ty();
        let o = self.op(&t);
        (t, o)
    }
    fn label(&mut self) -> u32 {
        if !self.lx.eatw("label") { self.lx.err("label") }
        match self.lx.bump() { T::L(n) => self.bb(n), _ => self.lx.err("label name") }
    }
    fn lanes(t: &TyR) -> (u32, u32) {
        match &**t { Ty::Vector(n, e) => (e.width(), *n as u32), t => (t.width(), 0) }
    }

    fn call(&mut self, dst: Option<u32>, invoke: bool) -> Ins {
        self.lx.skip_attrs_to_type();
        let ret = self.lx.ty();
        if self.lx.is('(') { self.lx.skip_parens(); }
        let callee = match self.lx.tok.clone() {
            T::G(n) => {
                self.lx.bump();
                let mut n = n;
                while let Some(a) = self.lx.m.aliases.get(&n) { n = a.clone(); }
                match self.lx.m.fidx.get(&n) {
                    Some(i) if self.lx.m.funcs[*i].body.is_some() => Callee::Func(*i),
                    _ => Callee::Extern(n),
                }
            }
            T::L(n) => { self.lx.bump(); Callee::Indirect(Op::R(self.reg(n))) }
            T::W(w) if w == "asm" => {
                self.lx.bump();
                while let T::W(_) = self.lx.tok { self.lx.bump(); }
                let s = match self.lx.bump() { T::S(s) => s, _ => self.lx.err("asm") };
                self.lx.expect(',');
                self.lx.bump();
                Callee::Asm(s)
            }
            _ => { let c = self.lx.cst(&Arc::new(Ty::Ptr)); Callee::Indirect(Op::C(c)) }
        };
        self.lx.expect('(');
        let mut args = vec![];
        if !self.lx.eat(')') {
            loop {
                let t = self.lx.ty();
                // attributes between type and value
                if *t != Ty::Meta {
                    loop {
                        match &self.lx.tok {
                            T::W(w) if is_param_attr(w) => {
                                let al = w == "align";
                                self.lx.bump();
                                if self.lx.is('(') { self.lx.skip_parens(); }
                                else if al { self.lx.bump(); }
                            }
                            T::S(_) => { self.lx.bump(); if self.lx.eat('=') { self.lx.bump(); } }
                            _ => break,
                        }
                    }
                }
                let o = self.op(&t);
                args.push((t, o));
                if self.lx.eat(')') { break; }
                self.lx.expect(',');
            }
        }
        // function attrs
        loop {
            match self.lx.tok {
                T::Attr => { self.lx.bump(); }
                T::W(ref w) if matches!(w.as_str(), "noreturn" | "nounwind" | "cold" | "noinline" | "memory" | "inlinehint" | "alwaysinline" | "builtin" | "nobuiltin" | "readnone" | "readonly" | "willreturn") => {
                    self.lx.bump();
                    if self.lx.is('(') { self.lx.skip_parens(); }
                }
                _ => break,
            }
        }
        if self.lx.is('[') {
            // operand bundle
            let mut d = 0;
            loop {
                match self.lx.tok { T::P('[') => d += 1, T::P(']') => { d -= 1; } T::Eof => self.lx.err("bundle"), _ => {} }
                self.lx.bump();
                if d == 0 { break; }
            }
        }
        let mut normal = None;
        if invoke {
            if !self.lx.eatw("to") { self.lx.err("invoke to") }
            normal = Some(self.label());
            if !self.lx.eatw("unwind") { self.lx.err("unwind") }
            self.label();
        }
        Ins::Call(Box::new(CallI { dst, ret, callee, args, normal }))
    }

    fn instr(&mut self, blk: &mut Block) {
        let mut dst: Option<u32> = None;
        if let T::L(_) = self.lx.tok {
            if let T::L(n) = self.lx.bump() { dst = Some(self.reg(n)); }
            self.lx.expect('=');
        }
        let opw = self.lx.word();
        let mut opw = opw.as_str().to_string();
        if matches!(opw.as_str(), "tail" | "musttail" | "notail") { opw = self.lx.word(); }
        let bop = match opw.as_str() {
            "add" => Some(Bop::Add), "sub" => Some(Bop::Sub), "mul" => Some(Bop::Mul),
            "udiv" => Some(Bop::UDiv), "sdiv" => Some(Bop::SDiv), "urem" => Some(Bop::URem), "srem" => Some(Bop::SRem),
            "and" => Some(Bop::And), "or" => Some(Bop::Or), "xor" => Some(Bop::Xor),
            "shl" => Some(Bop::Shl), "lshr" => Some(Bop::LShr), "ashr" => Some(Bop::AShr),
            _ => None,
        };
        let ins = if let Some(op) = bop {
            while matches!(&self.lx.tok, T::W(w) if matches!(w.as_str(), "nuw"|"nsw"|"exact"|"disjoint")) { self.lx.bump(); }
            let t = self.lx.ty();
            let a = self.op(&t);
            self.lx.expect(',');
            let b = self.op(&t);
            let (w, lanes) = Self::lanes(&t);
            Ins::Bin { dst: dst.unwrap(), op, w, lanes, a, b }
        } else {
            match opw.as_str() {
                "icmp" => {
                    if self.lx.isw("samesign") { self.lx.bump(); }
                    let p = match self.lx.word().as_str() {
                        "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule,
                        "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, "sle" => Pred::Sle,
                        "samesign" => match self.lx.word().as_str() {
                            "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule, _ => self.lx.err("pred"),
                        },
                        _ => self.lx.err("pred"),
                    };
                    let t = self.lx.ty();
                    let a = self.op(&t);
                    self.lx.expect(',');
                    let b = self.op(&t);
                    let (w, lanes) = Self::lanes(&t);
                    Ins::Icmp { dst: dst.unwrap(), p, w, lanes, a, b }
                }
                "zext" | "sext" | "trunc" | "bitcast" | "ptrtoint" | "inttoptr" | "addrspacecast" | "ptrtoaddr" => {
                    while matches!(&self.lx.tok, T::W(w) if matches!(w.as_str(), "nneg"|"nuw"|"nsw")) { self.lx.bump(); }
                    let (from, a) = self.tyop();
                    if !self.lx.eatw("to") { self.lx.err("to") }
                    let to = self.lx.ty();
                    let op = match opw.as_str() {
                        "zext" => Cop::ZExt, "sext" => Cop::SExt, "trunc" => Cop::Trunc,
                        "ptrtoint" | "inttoptr" | "ptrtoaddr" => if to.width() < from.width() { Cop::Trunc } else { Cop::ZExt },
                        _ => Cop::Bitcast,
                    };
                    Ins::Cast { dst: dst.unwrap(), op, from, to, a }
                }
                "load" => {
                    while matches!(&self.lx.tok, T::W(w) if matches!(w.as_str(), "atomic"|"volatile")) { self.lx.bump(); }
                    let ty = self.lx.ty();
                    self.lx.expect(',');
                    let (_, p) = self.tyop();
                    self.skip_ordering();
                    Ins::Load { dst: dst.unwrap(), ty, p }
                }
                "store" => {
                    while matches!(&self.lx.tok, T::W(w) if matches!(w.as_str(), "atomic"|"volatile")) { self.lx.bump(); }
                    let (ty, v) = self.tyop();
                    self.lx.expect(',');
                    let (_, p) = self.tyop();
                    self.skip_ordering();
                    Ins::Store { ty, v, p }
                }
                "alloca" => {
                    let t = self.lx.ty();
                    let mut n = Op::C(Cv::I(1));
                    while self.lx.eat(',') {
                        if self.lx.eatw("align") { self.lx.bump(); }
                        else if self.lx.tok == T::M { self.lx.bump(); self.lx.bump(); }
                        else { n = self.tyop().1; }
                    }
                    Ins::Alloca { dst: dst.unwrap(), size: t.size(), n }
                }
                "getelementptr" => {
                    while matches!(&self.lx.tok, T::W(w) if matches!(w.as_str(), "inbounds"|"nuw"|"nusw")) { self.lx.bump(); }
                    let mut cur = self.lx.ty();
                    self.lx.expect(',');
                    let (_, base) = self.tyop();
                    let mut off = 0i64;
                    let mut var = vec![];
                    let mut first = true;
                    while self.lx.eat(',') {
                        if self.lx.tok == T::M { self.lx.bump(); self.lx.bump(); continue; }
                        let (it, ix) = self.tyop();
                        if first {
                            first = false;
                            match ix {
                                Op::C(Cv::I(v)) => off += sext(v, it.width()) as i64 * cur.size() as i64,
                                o => var.push((o, it.width(), cur.size() as i64)),
                            }
                        } else {
                            match ix {
                                Op::C(Cv::I(v)) => { off += cur.field_off(v as usize) as i64; cur = cur.elem(v as usize); }
                                o => { let e = cur.elem(0); var.push((o, it.width(), e.size() as i64)); cur = e; }
                            }
                        }
                    }
                    Ins::Gep { dst: dst.unwrap(), base, off, var }
                }
                "select" => {
                    while matches!(&self.lx.tok, T::W(w) if matches!(w.as_str(), "fast"|"nnan"|"ninf"|"nsz")) { self.lx.bump(); }
                    let (ct, c) = self.tyop();
                    self.lx.expect(',');
                    let (ty, a) = self.tyop();
                    self.lx.expect(',');
                    let (_, b) = self.tyop();
                    Ins::Select { dst: dst.unwrap(), ty, c, cvec: matches!(*ct, Ty::Vector(..)), a, b }
                }
                "phi" => {
                    let t = self.lx.ty();
                    let mut v = vec![];
                    loop {
                        self.lx.expect('[');
                        let o = self.op(&t);
                        self.lx.expect(',');
                        let b = match self.lx.bump() { T::L(n) => self.bb(n), _ => self.lx.err("phi bb") };
                        self.lx.expect(']');
                        v.push((b, o));
                        if self.lx.is(',') {
                            self.lx.bump();
                            if self.lx.tok == T::M { self.lx.bump(); if self.lx.tok == T::M { self.lx.bump(); } break; }
                        } else { break; }
                    }
                    blk.phis.push((dst.unwrap(), v));
                    self.trail();
                    return;
                }
                "call" => self.call(dst, false),
                "invoke" => self.call(dst, true),
                "extractvalue" => {
                    let (_, a) = self.tyop();
                    let idx = self.idxs();
                    Ins::ExtractValue { dst: dst.unwrap(), a, idx }
                }
                "insertvalue" => {
                    let (aty, a) = self.tyop();
                    self.lx.expect(',');
                    let (_, v) = self.tyop();
                    let idx = self.idxs();
                    Ins::InsertValue { dst: dst.unwrap(), a, aty, v, idx }
                }
                "extractelement" => {
                    let (_, a) = self.tyop();
                    self.lx.expect(',');
                    let (_, i) = self.tyop();
                    Ins::ExtractElement { dst: dst.unwrap(), a, i }
                }
                "insertelement" => {
                    let (ty, a) = self.tyop();
                    self.lx.expect(',');
                    let (_, v) = self.tyop();
                    self.lx.expect(',');
                    let (_, i) = self.tyop();
                    Ins::InsertElement { dst: dst.unwrap(), a, ty, v, i }
                }
                "shufflevector" => {
                    let (at, a) = self.tyop();
                    self.lx.expect(',');
                    let (_, b) = self.tyop();
                    self.lx.expect(',');
                    let mt = self.lx.ty();
                    let mask = match self.lx.cst(&mt) { Cv::A(v) => v.into_iter().map(|c| match c { Cv::I(x) => x as i64, _ => 0 }).collect(), _ => self.lx.err("mask") };
                    Ins::Shuffle { dst: dst.unwrap(), a, b, n: at.nelems(), mask }
                }
                "freeze" => { let (_, a) = self.tyop(); Ins::Copy { dst: dst.unwrap(), a } }
                "fence" => { while matches!(self.lx.tok, T::W(ref w) if matches!(w.as_str(), "acquire"|"release"|"acq_rel"|"seq_cst"|"syncscope")) { self.lx.bump(); if self.lx.is('(') { self.lx.skip_parens(); } } Ins::Nop }
                "atomicrmw" => {
                    self.lx.eatw("volatile");
                    let op = self.lx.word();
                    let (_, p) = self.tyop();
                    self.lx.expect(',');
                    let (ty, v) = self.tyop();
                    self.skip_ordering();
                    Ins::Rmw { dst: dst.unwrap(), op, ty, p, v }
                }
                "cmpxchg" => {
                    while matches!(&self.lx.tok, T::W(w) if matches!(w.as_str(), "weak"|"volatile")) { self.lx.bump(); }
                    let (_, p) = self.tyop();
                    self.lx.expect(',');
                    let (ty, c) = self.tyop();
                    self.lx.expect(',');
                    let (_, n) = self.tyop();
                    self.skip_ordering();
                    Ins::CmpXchg { dst: dst.unwrap(), ty, p, c, n }
                }
                "br" => {
                    if self.lx.isw("label") { Ins::Br(self.label()) }
                    else {
                        let (_, c) = self.tyop();
                        self.lx.expect(',');
                        let t = self.label();
                        self.lx.expect(',');
                        let f = self.label();
                        Ins::CondBr { c, t, f }
                    }
                }
                "switch" => {
                    let (t, v) = self.tyop();
                    self.lx.expect(',');
                    let d = self.label();
                    self.lx.expect('[');
                    let mut cases = vec![];
                    while !self.lx.eat(']') {
                        let ct = self.lx.ty();
                        let c = match self.lx.cst(&ct) { Cv::I(v) => v, _ => self.lx.err("case") };
                        self.lx.expect(',');
                        let b = self.label();
                        cases.push((c, b));
                    }
                    Ins::Switch { w: t.width(), v, d, cases }
                }
                "ret" => {
                    if self.lx.eatw("void") { Ins::Ret(None) } else { Ins::Ret(Some(self.tyop().1)) }
                }
                "unreachable" => Ins::Unreachable,
                "resume" => { self.tyop(); Ins::Unreachable }
                "landingpad" => {
                    self.lx.ty();
                    loop {
                        if self.lx.eatw("cleanup") { continue; }
                        if self.lx.isw("catch") || self.lx.isw("filter") { self.lx.bump(); let t = self.lx.ty(); self.lx.cst(&t); continue; }
                        break;
                    }
                    Ins::Unreachable
                }
                o => {
                    // skip to end of line
                    let s = self.lx.s;
                    let mut j = self.lx.prev_end;
                    while j < self.lx.end && s[j] != b'\n' { j += 1; }
                    self.lx.i = j;
                    self.lx.bump();
                    Ins::Unsupported(o.to_string())
                }
            }
        };
        blk.ins.push(ins);
        self.trail();
    }
    fn skip_ordering(&mut self) {
        loop {
            match &self.lx.tok {
                T::W(w) if matches!(w.as_str(), "monotonic"|"acquire"|"release"|"acq_rel"|"seq_cst"|"unordered") => { self.lx.bump(); }
                T::W(w) if w == "syncscope" => { self.lx.bump(); self.lx.skip_parens(); }
                _ => break,
            }
        }
    }
    fn idxs(&mut self) -> Vec<u32> {
        let mut v = vec![];
        while self.lx.eat(',') {
            if self.lx.tok == T::M { self.lx.bump(); self.lx.bump(); continue; }
            v.push(self.lx.num() as u32);
        }
        v
    }
    fn trail(&mut self) {
        while self.lx.is(',') {
            self.lx.bump();
            if self.lx.eatw("align") { self.lx.bump(); }
            else if self.lx.tok == T::M {
                self.lx.bump();
                if self.lx.tok == T::M { self.lx.bump(); }
                if self.lx.is('{') { while !self.lx.eat('}') { self.lx.bump(); } }
                if self.lx.is('(') { self.lx.skip_parens(); }
            }
            else { self.lx.err("trailing") }
        }
    }
}

fn is_param_attr(w: &str) -> bool {
    matches!(w, "noundef"|"nonnull"|"noalias"|"readonly"|"writeonly"|"readnone"|"zeroext"|"signext"|"inreg"|"nofree"|"nocapture"|"captures"|"align"|"dereferenceable"|"dereferenceable_or_null"|"sret"|"byval"|"range"|"immarg"|"returned"|"writable"|"dead_on_unwind"|"initializes"|"nest"|"swiftself"|"allocptr"|"allocalign"|"dead_on_return"|"noext"|"nofpclass"|"elementtype")
}

impl Module {
    pub fn load(text: String) -> Module {
        let mut m = Module { text, funcs: vec![], fidx: HashMap::new(), globals: vec![], gidx: HashMap::new(), types: HashMap::new(), aliases: HashMap::new() };
        let bytes_len = m.text.len();
        let mut i = 0;
        let mut tydefs: Vec<(usize, usize)> = vec![];
        let mut gdefs: Vec<(usize, usize)> = vec![];
        let mut fdefs: Vec<(usize, usize, Option<(usize, usize)>)> = vec![];
        {
            let s = m.text.as_bytes();
            while i < bytes_len {
                let mut e = i;
                while e < bytes_len && s[e] != b'\n' { e += 1; }
                let line = &s[i..e];
                if line.starts_with(b"define ") {
                    let bs = e + 1;
                    let mut j = bs;
                    loop {
                        let mut k = j;
                        while k < bytes_len && s[k] != b'\n' { k += 1; }
                        if &s[j..k] == b"}" { fdefs.push((i, e, Some((bs, j)))); e = k; break; }
                        j = k + 1;
                    }
                } else if line.starts_with(b"declare ") {
                    fdefs.push((i, e, None));
                } else if line.starts_with(b"@") {
                    gdefs.push((i, e));
                } else if line.starts_with(b"%") {
                    tydefs.push((i, e));
                }
                i = e + 1;
            }
        }
        // types: may refer to each other, iterate
        for _ in 0..8 {
            let mut new = HashMap::new();
            for (a, b) in &tydefs {
                let mut lx = Lx::new(&m, *a, *b);
                let n = match lx.bump() { T::L(n) => n, _ => continue };
                lx.expect('=');
                lx.word();
                if lx.isw("opaque") { continue; }
                let t = lx.ty();
                new.insert(n, t);
            }
            m.types = new;
        }
        for (a, e, body) in fdefs {
            // name: first @ token
            let s = m.text.as_bytes();
            let mut j = a;
            // skip to '@' outside of parens (attributes like range(...) contain no @)
            while s[j] != b'@' { j += 1; }
            let mut lx = Lx::new(&m, j, e);
            let n = match lx.bump() { T::G(n) => n, _ => panic!("fname") };
            let hs = lx.prev_end;
            let idx = m.funcs.len();
            m.fidx.insert(n.clone(), idx);
            m.funcs.push(Func { name: n, header: (hs, e), body, parsed: OnceLock::new() });
        }
        let mut metas = vec![];
        for (a, e) in &gdefs {
            let mut lx = Lx::new(&m, *a, *e);
            let n = match lx.bump() { T::G(n) => n, _ => panic!() };
            lx.expect('=');
            let mut constant = false;
            let mut external = false;
            let mut alias = false;
            loop {
                match &lx.tok {
                    T::W(w) if w == "constant" => { constant = true; lx.bump(); break; }
                    T::W(w) if w == "global" => { lx.bump(); break; }
                    T::W(w) if w == "alias" => { lx.bump(); alias = true; break; }
                    T::W(w) => { if w == "external" || w == "extern_weak" { external = true; } lx.bump(); if lx.is('(') { lx.skip_parens(); } }
                    T::S(_) => { lx.bump(); }
                    _ => lx.err("global"),
                }
            }
            let ty = lx.ty();
            if alias {
                lx.expect(',');
                lx.ty();
                if let T::G(t) = lx.bump() { metas.push((n, None, ty, true, Some(t))); }
                continue;
            }
            // init begins right before current token
            let init = if external { None } else { Some((lx.prev_end, *e)) };
            metas.push((n, init, ty, constant, None));
        }
        for (n, init, ty, constant, alias) in metas {
            if let Some(t) = alias { m.aliases.insert(n, t); continue; }
            m.gidx.insert(n.clone(), m.globals.len());
            m.globals.push(Global { name: n, init, ty, constant });
        }
        m
    }

    pub fn global_bytes(&self, i: usize) -> Vec<u8> {
        let g = &self.globals[i];
        let mut out = vec![0u8; g.ty.size() as usize];
        if let Some((a, b)) = g.init {
            let mut lx = Lx::new(self, a, b);
            let c = lx.cst(&g.ty);
            put(&c, &g.ty, 0, &mut out);
        }
        out
    }

    pub fn body(&self, f: usize) -> &Body {
        let func = &self.funcs[f];
        func.parsed.get_or_init(|| {
            let (a, e) = func.header;
            let mut fx = Fx { lx: Lx::new(self, a, e), regs: HashMap::new(), blocks: HashMap::new() };
            fx.lx.expect('(');
            let mut np = 0u32;
            let mut unnamed = 0u32;
            if !fx.lx.eat(')') {
                loop {
                    if fx.lx.is('.') { break; }
                    if fx.lx.isw("...") { break; }
                    fx.lx.ty();
                    loop {
                        match fx.lx.bump() {
                            T::L(n) => { if n.parse::<u32>().is_ok() { unnamed += 1; } let r = fx.reg(n); assert_eq!(r, np); break; }
                            T::W(_) | T::S(_) | T::Attr => { if fx.lx.is('(') { fx.lx.skip_parens(); } 
                                if fx.lx.is(',') || fx.lx.is(')') { let r = fx.reg(format!("{}", np)); assert_eq!(r, np); break; } }
                            _ => fx.lx.err("param"),
                        }
                    }
                    np += 1;
                    if fx.lx.eat(')') { break; }
                    fx.lx.expect(',');
                }
            }
            let (a, b) = func.body.unwrap_or_else(|| panic!("no body for {}", func.name));
            fx.lx = Lx::new(self, a, b);
            let mut out: Vec<(u32, Block)> = vec![];
            // entry block may be unlabelled
            let mut cur: Option<(u32, Block)> = None;
            loop {
                if fx.lx.tok == T::Eof { break; }
                // label?
                let is_label = match &fx.lx.tok {
                    T::W(_) | T::S(_) => fx.lx.i < fx.lx.end && fx.lx.s[fx.lx.i] == b':',
                    _ => false,
                };
                if is_label {
                    let n = match fx.lx.bump() { T::W(w) => w, T::S(s) => s, _ => unreachable!() };
                    fx.lx.expect(':');
                    if let Some(c) = cur.take() { out.push(c); }
                    let id = fx.bb(n);
                    cur = Some((id, Block::default()));
                    continue;
                }
                if cur.is_none() {
                    let id = fx.bb(format!("{}", unnamed));
                    cur = Some((id, Block::default()));
                }
                let mut c = cur.take().unwrap();
                fx.instr(&mut c.1);
                cur = Some(c);
            }
            if let Some(c) = cur.take() { out.push(c); }
            let entry = out[0].0;
            assert_eq!(entry, 0, "entry block must be first");
            let mut blocks: Vec<Block> = (0..fx.blocks.len()).map(|_| Block::default()).collect();
            for (id, b) in out { blocks[id as usize] = b; }
            Body { nregs: fx.regs.len(), nparams: np as usize, blocks }
        })
    }
    pub fn has_body(&self, f: usize) -> bool { self.funcs[f].body.is_some() }
}

fn put(c: &Cv, t: &Ty, off: usize, out: &mut [u8]) {
    match (c, t) {
        (Cv::I(v), _) => {
            let n = match t { Ty::Int(w) => (*w as usize + 7) / 8, _ => t.size() as usize };
            for k in 0..n { out[off + k] = (v >> (8 * k)) as u8; }
        }
        (Cv::A(v), t) => {
            for (k, e) in v.iter().enumerate() { put(e, &t.elem(k), off + t.field_off(k) as usize, out); }
        }
    }
}
