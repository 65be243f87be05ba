//! Hash-consed bit-vector expressions (width 1 = Bool sort) with light simplification.
use std::collections::HashMap;
use std::rc::Rc;

pub type E = u32;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum N {
    Const(u32, u128),
    Var(u32, u32), // width, id
    Add(E, E), Sub(E, E), Mul(E, E), UDiv(E, E), SDiv(E, E), URem(E, E), SRem(E, E),
    And(E, E), Or(E, E), Xor(E, E), Shl(E, E), LShr(E, E), AShr(E, E),
    Eq(E, E), Ult(E, E), Ule(E, E), Slt(E, E), Sle(E, E),
    Not(E),
    Ite(E, E, E),
    ZExt(u32, E), SExt(u32, E),
    Extract(u32, u32, E), // hi lo
    Concat(E, E),
}

pub struct Pool {
    pub nodes: Vec<N>,
    pub width: Vec<u32>,
    pub vars: Vec<Rc<Vec<u32>>>,
    map: HashMap<N, E>,
    pub tru: E,
    pub fls: E,
    pub nvars: u32,
}

pub fn mask(w: u32, v: u128) -> u128 { if w >= 128 { v } else { v & ((1u128 << w) - 1) } }
pub fn sx(w: u32, v: u128) -> i128 { if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) } }

impl Pool {
    pub fn new() -> Self {
        let mut p = Pool { nodes: vec![], width: vec![], vars: vec![], map: HashMap::new(), tru: 0, fls: 0, nvars: 0 };
        p.fls = p.mk(N::Const(1, 0), 1);
        p.tru = p.mk(N::Const(1, 1), 1);
        p
    }
    fn mk(&mut self, n: N, w: u32) -> E {
        if let Some(e) = self.map.get(&n) { return *e; }
        let id = self.nodes.len() as E;
        let vars = match &n {
            N::Const(..) => Rc::new(vec![]),
            N::Var(_, v) => Rc::new(vec![*v]),
            _ => {
                let ch = children(&n);
                let mut acc: Rc<Vec<u32>> = self.vars[ch[0] as usize].clone();
                for c in &ch[1..] {
                    let o = &self.vars[*c as usize];
                    if Rc::ptr_eq(&acc, o) || o.is_empty() { continue; }
                    if acc.is_empty() { acc = o.clone(); continue; }
                    let mut v: Vec<u32> = acc.iter().chain(o.iter()).cloned().collect();
                    v.sort_unstable();
                    v.dedup();
                    if v.len() == acc.len() { continue; }
                    acc = if v.len() == o.len() { o.clone() } else { Rc::new(v) };
                }
                acc
            }
        };
        self.nodes.push(n.clone());
        self.width.push(w);
        self.vars.push(vars);
        self.map.insert(n, id);
        id
    }
    pub fn w(&self, e: E) -> u32 { self.width[e as usize] }
    pub fn c(&mut self, w: u32, v: u128) -> E { self.mk(N::Const(w, mask(w, v)), w) }
    pub fn b(&self, v: bool) -> E { if v { self.tru } else { self.fls } }
    pub fn var(&mut self, w: u32) -> E {
        let id = self.nvars;
        self.nvars += 1;
        self.var_id(w, id)
    }
    pub fn var_id(&mut self, w: u32, id: u32) -> E {
        if id >= self.nvars { self.nvars = id + 1; }
        self.mk(N::Var(w, id), w)
    }
    pub fn k(&self, e: E) -> Option<u128> { if let N::Const(_, v) = self.nodes[e as usize] { Some(v) } else { None } }
    pub fn n(&self, e: E) -> &N { &self.nodes[e as usize] }

    pub fn not(&mut self, a: E) -> E {
        if let Some(v) = self.k(a) { let w = self.w(a); return self.c(w, !v); }
        if let N::Not(x) = *self.n(a) { return x; }
        let w = self.w(a);
        self.mk(N::Not(a), w)
    }
    pub fn and(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b { return a; }
        match (self.k(a), self.k(b)) {
            (Some(x), Some(y)) => return self.c(w, x & y),
            (Some(_), None) => return self.and(b, a),
            (None, Some(y)) => {
                if y == 0 { return self.c(w, 0); }
                if y == mask(w, u128::MAX) { return a; }
                // contiguous low mask -> zext(extract)
                if (y & y.wrapping_add(1)) == 0 {
                    let k = 128 - y.leading_zeros();
                    let x = self.extract(k - 1, 0, a);
                    return self.zext(w, x);
                }
                // mask with ite
                if let N::Ite(c, t, f) = *self.n(a) {
                    if self.k(t).is_some() && self.k(f).is_some() { let t2 = self.and(t, b); let f2 = self.and(f, b); return self.ite(c, t2, f2); }
                }
            }
            _ => {}
        }
        if w == 1 {
            if let N::Not(x) = *self.n(a) { if x == b { return self.fls; } }
            if let N::Not(x) = *self.n(b) { if x == a { return self.fls; } }
        }
        let (a, b) = if a > b { (b, a) } else { (a, b) };
        self.mk(N::And(a, b), w)
    }
    pub fn or(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b { return a; }
        match (self.k(a), self.k(b)) {
            (Some(x), Some(y)) => return self.c(w, x | y),
            (Some(_), None) => return self.or(b, a),
            (None, Some(y)) => {
                if y == 0 { return a; }
                if y == mask(w, u128::MAX) { return b; }
            }
            _ => {}
        }
        if w == 1 {
            if let N::Not(x) = *self.n(a) { if x == b { return self.tru; } }
            if let N::Not(x) = *self.n(b) { if x == a { return self.tru; } }
        } else {
            // disjoint byte assembling: (zext x) | (shl (zext y) k) -> concat
            if let Some(r) = self.or_concat(a, b) { return r; }
            if let Some(r) = self.or_concat(b, a) { return r; }
        }
        let (a, b) = if a > b { (b, a) } else { (a, b) };
        self.mk(N::Or(a, b), w)
    }
    /// a has zero high bits (zext from k), b has zero low k bits (concat(x, 0_k))
    fn or_concat(&mut self, a: E, b: E) -> Option<E> {
        let w = self.w(a);
        if let N::ZExt(_, x) = *self.n(a) {
            let k = self.w(x);
            if let Some(hi) = self.low_zero(b, k) {
                debug_assert_eq!(self.w(hi), w - k);
                return Some(self.concat(hi, x));
            }
        }
        None
    }
    /// if the low k bits of e are known zero, return its high part
    fn low_zero(&mut self, e: E, k: u32) -> Option<E> {
        let w = self.w(e);
        match *self.n(e) {
            N::Concat(h, l) => {
                let lw = self.w(l);
                if self.k(l) == Some(0) {
                    if lw == k { return Some(h); }
                    if lw > k { let z = self.c(lw - k, 0); return Some(self.concat(h, z)); }
                    return None;
                }
                if lw > k { let l2 = self.low_zero(l, k)?; return Some(self.concat(h, l2)); }
                None
            }
            N::ZExt(_, x) => {
                let xw = self.w(x);
                if xw > k {
                    let h = self.low_zero(x, k)?;
                    return Some(self.zext(w - k, h));
                }
                None
            }
            _ => None,
        }
    }
    pub fn xor(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b { return self.c(w, 0); }
        match (self.k(a), self.k(b)) {
            (Some(x), Some(y)) => return self.c(w, x ^ y),
            (Some(_), None) => return self.xor(b, a),
            (None, Some(y)) => {
                if y == 0 { return a; }
                if y == mask(w, u128::MAX) { return self.not(a); }
            }
            _ => {}
        }
        let (a, b) = if a > b { (b, a) } else { (a, b) };
        self.mk(N::Xor(a, b), w)
    }
    pub fn add(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        match (self.k(a), self.k(b)) {
            (Some(x), Some(y)) => return self.c(w, x.wrapping_add(y)),
            (Some(_), None) => return self.add(b, a),
            (None, Some(y)) => {
                if y == 0 { return a; }
                if let N::Add(x, z) = *self.n(a) { if let Some(zc) = self.k(z) { let k = self.c(w, zc.wrapping_add(y)); return self.add(x, k); } }
                if let N::Ite(c, t, f) = *self.n(a) {
                    if self.k(t).is_some() && self.k(f).is_some() { let t2 = self.add(t, b); let f2 = self.add(f, b); return self.ite(c, t2, f2); }
                }
            }
            _ => {}
        }
        if w == 1 { return self.xor(a, b); }
        self.mk(N::Add(a, b), w)
    }
    pub fn sub(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b { return self.c(w, 0); }
        if let Some(y) = self.k(b) { let k = self.c(w, (!y).wrapping_add(1)); return self.add(a, k); }
        if w == 1 { return self.xor(a, b); }
        self.mk(N::Sub(a, b), w)
    }
    pub fn mul(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        match (self.k(a), self.k(b)) {
            (Some(x), Some(y)) => return self.c(w, x.wrapping_mul(y)),
            (Some(_), None) => return self.mul(b, a),
            (None, Some(y)) => {
                if y == 0 { return b; }
                if y == 1 { return a; }
                if y.is_power_of_two() { let k = self.c(w, y.trailing_zeros() as u128); return self.shl(a, k); }
            }
            _ => {}
        }
        if w == 1 { return self.and(a, b); }
        self.mk(N::Mul(a, b), w)
    }
    pub fn divop(&mut self, op: crate::ir::Bop, a: E, b: E) -> E {
        use crate::ir::Bop::*;
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.k(a), self.k(b)) {
            if y != 0 {
                let r = match op {
                    UDiv => x / y, URem => x % y,
                    SDiv => sx(w, x).wrapping_div(sx(w, y)) as u128,
                    _ => sx(w, x).wrapping_rem(sx(w, y)) as u128,
                };
                return self.c(w, r);
            }
        }
        if let Some(y) = self.k(b) {
            if y.is_power_of_two() {
                let s = y.trailing_zeros();
                match op {
                    UDiv => { let k = self.c(w, s as u128); return self.lshr(a, k); }
                    URem => { let k = self.c(w, y - 1); return self.and(a, k); }
                    _ => {}
                }
            }
        }
        let n = match op { UDiv => N::UDiv(a, b), URem => N::URem(a, b), SDiv => N::SDiv(a, b), _ => N::SRem(a, b) };
        self.mk(n, w)
    }
    pub fn shl(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(s) = self.k(b) {
            if s == 0 { return a; }
            if s >= w as u128 { return self.c(w, 0); }
            if let Some(x) = self.k(a) { return self.c(w, x << s); }
            let lo = self.extract(w - 1 - s as u32, 0, a);
            let z = self.c(s as u32, 0);
            return self.concat(lo, z);
        }
        self.mk(N::Shl(a, b), w)
    }
    pub fn lshr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(s) = self.k(b) {
            if s == 0 { return a; }
            if s >= w as u128 { return self.c(w, 0); }
            let hi = self.extract(w - 1, s as u32, a);
            return self.zext(w, hi);
        }
        self.mk(N::LShr(a, b), w)
    }
    pub fn ashr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(s) = self.k(b) {
            if s == 0 { return a; }
            let s = s.min(w as u128 - 1) as u32;
            let hi = self.extract(w - 1, s, a);
            return self.sext(w, hi);
        }
        self.mk(N::AShr(a, b), w)
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        if a == b { return self.tru; }
        match (self.k(a), self.k(b)) {
            (Some(x), Some(y)) => return self.b(x == y),
            (Some(_), None) => return self.eq(b, a),
            (None, Some(y)) => {
                let w = self.w(a);
                if w == 1 { return if y == 1 { a } else { self.not(a) }; }
                match *self.n(a) {
                    N::Ite(c, t, f) => {
                        match (self.k(t), self.k(f)) {
                            (Some(tv), Some(fv)) => {
                                return if tv == y && fv == y { self.tru } else if tv == y { c } else if fv == y { self.not(c) } else { self.fls };
                            }
                            (Some(tv), None) => { let r = self.eq(f, b); return if tv == y { self.or(c, r) } else { let nc = self.not(c); self.and(nc, r) }; }
                            (None, Some(fv)) => { let r = self.eq(t, b); return if fv == y { let nc = self.not(c); self.or(nc, r) } else { self.and(c, r) }; }
                            _ => {}
                        }
                    }
                    N::ZExt(_, x) => {
                        let xw = self.w(x);
                        if y >> xw != 0 { return self.fls; }
                        let k = self.c(xw, y);
                        return self.eq(x, k);
                    }
                    N::SExt(_, x) => {
                        let xw = self.w(x);
                        if mask(w, sx(xw, mask(xw, y)) as u128) != y { return self.fls; }
                        let k = self.c(xw, y);
                        return self.eq(x, k);
                    }
                    N::Concat(h, l) => {
                        let (hw, lw) = (self.w(h), self.w(l));
                        if self.k(h).is_some() || self.k(l).is_some() {
                            let kl = self.c(lw, y);
                            let kh = self.c(hw, y >> lw);
                            let e1 = self.eq(h, kh);
                            let e2 = self.eq(l, kl);
                            return self.and(e1, e2);
                        }
                    }
                    N::Not(x) => { let k = self.c(w, !y); return self.eq(x, k); }
                    N::Xor(x, z) => { if let Some(zc) = self.k(z) { let k = self.c(w, zc ^ y); return self.eq(x, k); } if y == 0 { return self.eq(x, z); } }
                    N::Add(x, z) => { if let Some(zc) = self.k(z) { let k = self.c(w, y.wrapping_sub(zc)); return self.eq(x, k); } }
                    N::Sub(x, z) => { if y == 0 { return self.eq(x, z); } }
                    _ => {}
                }
            }
            _ => {
                if let (N::ZExt(_, x), N::ZExt(_, z)) = (self.n(a).clone(), self.n(b).clone()) {
                    if self.w(x) == self.w(z) { return self.eq(x, z); }
                }
                if let (N::Concat(h1, l1), N::Concat(h2, l2)) = (self.n(a).clone(), self.n(b).clone()) {
                    if self.w(l1) == self.w(l2) && (h1 == h2 || l1 == l2) {
                        return if h1 == h2 { self.eq(l1, l2) } else { self.eq(h1, h2) };
                    }
                }
            }
        }
        let (a, b) = if a > b { (b, a) } else { (a, b) };
        self.mk(N::Eq(a, b), 1)
    }
    pub fn ult(&mut self, a: E, b: E) -> E {
        if a == b { return self.fls; }
        let w = self.w(a);
        match (self.k(a), self.k(b)) {
            (Some(x), Some(y)) => return self.b(x < y),
            (None, Some(0)) => return self.fls,
            (None, Some(1)) => { let z = self.c(w, 0); return self.eq(a, z); }
            (None, Some(y)) => {
                if let N::ZExt(_, x) = *self.n(a) {
                    let xw = self.w(x);
                    if y >> xw != 0 { return self.tru; }
                    let k = self.c(xw, y);
                    return self.ult(x, k);
                }
                if let N::Ite(c, t, f) = *self.n(a) {
                    if let (Some(t), Some(f)) = (self.k(t), self.k(f)) {
                        let (tv, fv) = (t < y, f < y);
                        return match (tv, fv) { (true, true) => self.tru, (false, false) => self.fls, (true, false) => c, _ => self.not(c) };
                    }
                }
            }
            (Some(x), None) => {
                if x == mask(w, u128::MAX) { return self.fls; }
                if let N::ZExt(_, y) = *self.n(b) {
                    let yw = self.w(y);
                    if x >> yw != 0 { return self.fls; }
                    let k = self.c(yw, x);
                    return self.ult(k, y);
                }
                if x == 0 { let z = self.c(w, 0); let e = self.eq(b, z); return self.not(e); }
                if let N::Ite(c, t, f) = *self.n(b) {
                    if let (Some(t), Some(f)) = (self.k(t), self.k(f)) {
                        let (tv, fv) = (x < t, x < f);
                        return match (tv, fv) { (true, true) => self.tru, (false, false) => self.fls, (true, false) => c, _ => self.not(c) };
                    }
                }
            }
            (None, None) => {
                if let (N::ZExt(_, x), N::ZExt(_, z)) = (self.n(a).clone(), self.n(b).clone()) {
                    if self.w(x) == self.w(z) { return self.ult(x, z); }
                }
            }
        }
        if w == 1 { let na = self.not(a); return self.and(na, b); }
        self.mk(N::Ult(a, b), 1)
    }
    pub fn ule(&mut self, a: E, b: E) -> E { let x = self.ult(b, a); self.not(x) }
    pub fn slt(&mut self, a: E, b: E) -> E {
        if a == b { return self.fls; }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.k(a), self.k(b)) { return self.b(sx(w, x) < sx(w, y)); }
        if let (N::Ite(c, t, f), Some(y)) = (self.n(a).clone(), self.k(b)) {
            if let (Some(t), Some(f)) = (self.k(t), self.k(f)) {
                let (tv, fv) = (sx(w, t) < sx(w, y), sx(w, f) < sx(w, y));
                return match (tv, fv) { (true, true) => self.tru, (false, false) => self.fls, (true, false) => c, _ => self.not(c) };
            }
        }
        if let N::ZExt(_, x) = *self.n(a) {
            if let Some(y) = self.k(b) {
                let _ = x;
                return if sx(w, y) <= 0 { self.fls } else { self.ult(a, b) };
            }
        }
        if w == 1 { let nb = self.not(b); return self.and(a, nb); }
        self.mk(N::Slt(a, b), 1)
    }
    pub fn sle(&mut self, a: E, b: E) -> E { let x = self.slt(b, a); self.not(x) }
    pub fn ite(&mut self, c: E, t: E, f: E) -> E {
        if let Some(v) = self.k(c) { return if v == 1 { t } else { f }; }
        if t == f { return t; }
        if let N::Not(x) = *self.n(c) { return self.ite(x, f, t); }
        let w = self.w(t);
        if w == 1 {
            match (self.k(t), self.k(f)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, f),
                (Some(0), None) => { let nc = self.not(c); return self.and(nc, f); }
                (None, Some(0)) => return self.and(c, t),
                (None, Some(1)) => { let nc = self.not(c); return self.or(nc, t); }
                _ => {}
            }
        }
        if let N::Ite(c2, t2, _) = *self.n(t) { if c2 == c { return self.ite(c, t2, f); } }
        if let N::Ite(c2, _, f2) = *self.n(f) { if c2 == c { return self.ite(c, t, f2); } }
        self.mk(N::Ite(c, t, f), w)
    }
    pub fn zext(&mut self, w: u32, a: E) -> E {
        let aw = self.w(a);
        if aw == w { return a; }
        if let Some(v) = self.k(a) { return self.c(w, v); }
        if let N::ZExt(_, x) = *self.n(a) { return self.zext(w, x); }
        if aw == 1 { let t = self.c(w, 1); let f = self.c(w, 0); return self.ite(a, t, f); }
        self.mk(N::ZExt(w, a), w)
    }
    pub fn sext(&mut self, w: u32, a: E) -> E {
        let aw = self.w(a);
        if aw == w { return a; }
        if let Some(v) = self.k(a) { return self.c(w, sx(aw, v) as u128); }
        if let N::ZExt(_, _) = *self.n(a) { return self.zext(w, a); }
        if aw == 1 { let t = self.c(w, u128::MAX); let f = self.c(w, 0); return self.ite(a, t, f); }
        self.mk(N::SExt(w, a), w)
    }
    pub fn extract(&mut self, hi: u32, lo: u32, a: E) -> E {
        let aw = self.w(a);
        let nw = hi - lo + 1;
        if nw == aw { return a; }
        if let Some(v) = self.k(a) { return self.c(nw, v >> lo); }
        match *self.n(a) {
            N::Extract(_, l2, x) => return self.extract(hi + l2, lo + l2, x),
            N::Concat(h, l) => {
                let lw = self.w(l);
                if hi < lw { return self.extract(hi, lo, l); }
                if lo >= lw { return self.extract(hi - lw, lo - lw, h); }
                let a1 = self.extract(hi - lw, 0, h);
                let b1 = self.extract(lw - 1, lo, l);
                return self.concat(a1, b1);
            }
            N::ZExt(_, x) => {
                let xw = self.w(x);
                if lo >= xw { return self.c(nw, 0); }
                if hi < xw { return self.extract(hi, lo, x); }
                let e = self.extract(xw - 1, lo, x);
                return self.zext(nw, e);
            }
            N::SExt(_, x) => {
                let xw = self.w(x);
                if hi < xw { return self.extract(hi, lo, x); }
                if lo == 0 { return self.sext(nw, x); }
            }
            N::Ite(c, t, f) => {
                if self.k(t).is_some() || self.k(f).is_some() || nw == 1 {
                    let t2 = self.extract(hi, lo, t);
                    let f2 = self.extract(hi, lo, f);
                    return self.ite(c, t2, f2);
                }
            }
            N::And(x, y) if nw <= 8 => { let x2 = self.extract(hi, lo, x); let y2 = self.extract(hi, lo, y); return self.and(x2, y2); }
            N::Or(x, y) if nw <= 8 => { let x2 = self.extract(hi, lo, x); let y2 = self.extract(hi, lo, y); return self.or(x2, y2); }
            N::Xor(x, y) if nw <= 8 => { let x2 = self.extract(hi, lo, x); let y2 = self.extract(hi, lo, y); return self.xor(x2, y2); }
            N::Not(x) => { let x2 = self.extract(hi, lo, x); return self.not(x2); }
            N::Add(x, y) if lo == 0 => { let x2 = self.extract(hi, lo, x); let y2 = self.extract(hi, lo, y); return self.add(x2, y2); }
            _ => {}
        }
        self.mk(N::Extract(hi, lo, a), nw)
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let (hw, lw) = (self.w(h), self.w(l));
        let w = hw + lw;
        assert!(w <= 128);
        match (self.k(h), self.k(l)) {
            (Some(x), Some(y)) => return self.c(w, (x << lw) | y),
            (Some(0), None) => return self.zext(w, l),
            _ => {}
        }
        // adjacent extracts of the same node
        if let N::Extract(h2, l2, y) = *self.n(l) {
            match *self.n(h) {
                N::Extract(h1, l1, x) if x == y && l1 == h2 + 1 => return self.extract(h1, l2, x),
                N::Concat(hh, hl) => {
                    if let N::Extract(h1, l1, x) = *self.n(hl) {
                        if x == y && l1 == h2 + 1 { let m = self.extract(h1, l2, x); return self.concat(hh, m); }
                    }
                }
                _ => {}
            }
        }
        // ite with const branches, other const: push down
        if let N::Ite(c, t, f) = *self.n(l) {
            if self.k(h).is_some() && self.k(t).is_some() && self.k(f).is_some() {
                let t2 = self.concat(h, t); let f2 = self.concat(h, f); return self.ite(c, t2, f2);
            }
            if let N::Ite(c2, t1, f1) = *self.n(h) {
                if c == c2 { let t2 = self.concat(t1, t); let f2 = self.concat(f1, f); return self.ite(c, t2, f2); }
            }
        }
        if let N::Ite(c, t, f) = *self.n(h) {
            if self.k(l).is_some() && self.k(t).is_some() && self.k(f).is_some() {
                let t2 = self.concat(t, l); let f2 = self.concat(f, l); return self.ite(c, t2, f2);
            }
        }
        // right-assoc normal form: concat(concat(a,b),c) -> concat(a, concat(b,c))
        if let N::Concat(a, b) = *self.n(h) {
            let r = self.concat(b, l);
            return self.concat(a, r);
        }
        // concat(x, concat(y, z)) with x,y adjacent
        if let N::Concat(y, z) = *self.n(l) {
            if let (N::Extract(h1, l1, a), N::Extract(h2, l2, b)) = (self.n(h).clone(), self.n(y).clone()) {
                if a == b && l1 == h2 + 1 { let m = self.extract(h1, l2, a); return self.concat(m, z); }
            }
            if let (Some(x), Some(yk)) = (self.k(h), self.k(y)) {
                let yw = self.w(y);
                let m = self.c(hw + yw, (x << yw) | yk);
                return self.concat(m, z);
            }
        }
        self.mk(N::Concat(h, l), w)
    }

    pub fn eval(&self, e: E, model: &HashMap<u32, u128>, memo: &mut HashMap<E, u128>) -> u128 {
        if let N::Const(_, v) = self.nodes[e as usize] { return v; }
        if let N::Var(_, id) = self.nodes[e as usize] { return model.get(&id).copied().unwrap_or(0); }
        if let Some(v) = memo.get(&e) { return *v; }
        let w = self.w(e);
        macro_rules! ev { ($x:expr) => { self.eval($x, model, memo) } }
        let r = match self.nodes[e as usize] {
            N::Const(..) | N::Var(..) => unreachable!(),
            N::Add(a, b) => ev!(a).wrapping_add(ev!(b)),
            N::Sub(a, b) => ev!(a).wrapping_sub(ev!(b)),
            N::Mul(a, b) => ev!(a).wrapping_mul(ev!(b)),
            N::UDiv(a, b) => { let y = ev!(b); if y == 0 { u128::MAX } else { ev!(a) / y } }
            N::URem(a, b) => { let y = ev!(b); if y == 0 { ev!(a) } else { ev!(a) % y } }
            N::SDiv(a, b) => { let y = sx(w, ev!(b)); let x = sx(w, ev!(a)); if y == 0 { if x < 0 { 1 } else { u128::MAX } } else { x.wrapping_div(y) as u128 } }
            N::SRem(a, b) => { let y = sx(w, ev!(b)); let x = sx(w, ev!(a)); if y == 0 { x as u128 } else { x.wrapping_rem(y) as u128 } }
            N::And(a, b) => ev!(a) & ev!(b),
            N::Or(a, b) => ev!(a) | ev!(b),
            N::Xor(a, b) => ev!(a) ^ ev!(b),
            N::Shl(a, b) => { let s = ev!(b); if s >= w as u128 { 0 } else { ev!(a) << s } }
            N::LShr(a, b) => { let s = ev!(b); if s >= w as u128 { 0 } else { ev!(a) >> s } }
            N::AShr(a, b) => { let s = ev!(b).min(w as u128 - 1); (sx(w, ev!(a)) >> s) as u128 }
            N::Eq(a, b) => (ev!(a) == ev!(b)) as u128,
            N::Ult(a, b) => (ev!(a) < ev!(b)) as u128,
            N::Ule(a, b) => (ev!(a) <= ev!(b)) as u128,
            N::Slt(a, b) => { let aw = self.w(a); (sx(aw, ev!(a)) < sx(aw, ev!(b))) as u128 }
            N::Sle(a, b) => { let aw = self.w(a); (sx(aw, ev!(a)) <= sx(aw, ev!(b))) as u128 }
            N::Not(a) => !ev!(a),
            N::Ite(c, t, f) => if ev!(c) == 1 { ev!(t) } else { ev!(f) },
            N::ZExt(_, a) => ev!(a),
            N::SExt(_, a) => { let aw = self.w(a); sx(aw, ev!(a)) as u128 }
            N::Extract(_, lo, a) => ev!(a) >> lo,
            N::Concat(h, l) => { let lw = self.w(l); (ev!(h) << lw) | ev!(l) }
        };
        let r = mask(w, r);
        memo.insert(e, r);
        r
    }

    pub fn sort(w: u32) -> String { if w == 1 { "Bool".into() } else { format!("(_ BitVec {})", w) } }

    /// SMT-LIB body of a node, children referred to by `e<ID>`
    pub fn smt(&self, e: E) -> String {
        let w = self.w(e);
        let r = |x: E| -> String {
            match self.nodes[x as usize] {
                N::Const(1, v) => if v == 1 { "true".into() } else { "false".into() },
                N::Const(w, v) => format!("(_ bv{} {})", v, w),
                N::Var(_, id) => format!("v{}", id),
                _ => format!("e{}", x),
            }
        };
        let b2 = |s: &str, a: E, b: E| format!("({} {} {})", s, r(a), r(b));
        match self.nodes[e as usize] {
            N::Const(..) | N::Var(..) => r(e),
            N::Add(a, b) => b2("bvadd", a, b),
            N::Sub(a, b) => b2("bvsub", a, b),
            N::Mul(a, b) => b2("bvmul", a, b),
            N::UDiv(a, b) => b2("bvudiv", a, b),
            N::URem(a, b) => b2("bvurem", a, b),
            N::SDiv(a, b) => b2("bvsdiv", a, b),
            N::SRem(a, b) => b2("bvsrem", a, b),
            N::And(a, b) => b2(if w == 1 { "and" } else { "bvand" }, a, b),
            N::Or(a, b) => b2(if w == 1 { "or" } else { "bvor" }, a, b),
            N::Xor(a, b) => b2(if w == 1 { "xor" } else { "bvxor" }, a, b),
            N::Shl(a, b) => b2("bvshl", a, b),
            N::LShr(a, b) => b2("bvlshr", a, b),
            N::AShr(a, b) => b2("bvashr", a, b),
            N::Eq(a, b) => b2("=", a, b),
            N::Ult(a, b) => b2("bvult", a, b),
            N::Ule(a, b) => b2("bvule", a, b),
            N::Slt(a, b) => b2("bvslt", a, b),
            N::Sle(a, b) => b2("bvsle", a, b),
            N::Not(a) => format!("({} {})", if w == 1 { "not" } else { "bvnot" }, r(a)),
            N::Ite(c, t, f) => format!("(ite {} {} {})", r(c), r(t), r(f)),
            N::ZExt(w2, a) => format!("((_ zero_extend {}) {})", w2 - self.w(a), r(a)),
            N::SExt(w2, a) => format!("((_ sign_extend {}) {})", w2 - self.w(a), r(a)),
            N::Extract(hi, lo, a) => {
                if w == 1 { format!("(= ((_ extract {} {}) {}) #b1)", hi, lo, r(a)) }
                else { format!("((_ extract {} {}) {})", hi, lo, r(a)) }
            }
            N::Concat(h, l) => {
                let f = |x: E| if self.w(x) == 1 { format!("(ite {} #b1 #b0)", r(x)) } else { r(x) };
                format!("(concat {} {})", f(h), f(l))
            }
        }
    }
}

pub fn children(n: &N) -> Vec<E> {
    match *n {
        N::Const(..) | N::Var(..) => vec![],
        N::Add(a, b) | N::Sub(a, b) | N::Mul(a, b) | N::UDiv(a, b) | N::SDiv(a, b) | N::URem(a, b) | N::SRem(a, b)
        | N::And(a, b) | N::Or(a, b) | N::Xor(a, b) | N::Shl(a, b) | N::LShr(a, b) | N::AShr(a, b)
        | N::Eq(a, b) | N::Ult(a, b) | N::Ule(a, b) | N::Slt(a, b) | N::Sle(a, b) | N::Concat(a, b) => vec![a, b],
        N::Not(a) | N::ZExt(_, a) | N::SExt(_, a) | N::Extract(_, _, a) => vec![a],
        N::Ite(a, b, c) => vec![a, b, c],
    }
}
