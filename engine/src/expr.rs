//! Hash-consed bit-vector expressions over 8-bit symbolic variables.

use std::collections::HashMap;
use std::rc::Rc;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum K {
    Const,
    ConstW,
    Var,
    Lut,
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Slt,
    Ite,
    Concat,
    Extract,
    ZExt,
    SExt,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub k: K,
    pub w: u16,
    pub a: u32,
    pub b: u32,
    pub c: u32,
}

pub const NONE: u32 = 0;
pub const MANY: u32 = u32::MAX;

pub struct Ex {
    pub nodes: Vec<Node>,
    pub supp: Vec<u32>,
    map: HashMap<Node, E, BuildFx>,
    pub wide: Vec<u128>,
    wide_map: HashMap<u128, u32>,
    pub luts: Vec<Rc<[u64; 256]>>,
    lut_map: HashMap<Rc<[u64; 256]>, u32>,
    tabs: HashMap<E, Rc<[u64; 256]>, BuildFx>,
    vars_memo: HashMap<E, Rc<[u32]>, BuildFx>,
}

#[derive(Clone, Default)]
pub struct BuildFx;
impl std::hash::BuildHasher for BuildFx {
    type Hasher = Fx;
    fn build_hasher(&self) -> Fx {
        Fx(0)
    }
}
pub struct Fx(u64);
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64);
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u16(&mut self, i: u16) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
    fn write_isize(&mut self, i: isize) {
        self.write_u64(i as u64)
    }
}

pub fn mask(v: u64, bits: u32) -> u64 {
    if bits >= 64 {
        v
    } else {
        v & ((1u64 << bits) - 1)
    }
}
fn maskw(v: u128, bits: u32) -> u128 {
    if bits >= 128 {
        v
    } else {
        v & ((1u128 << bits) - 1)
    }
}
fn sextw(v: u128, bits: u32) -> i128 {
    if bits >= 128 {
        v as i128
    } else {
        ((v << (128 - bits)) as i128) >> (128 - bits)
    }
}

static mut EX: *mut Ex = std::ptr::null_mut();

pub fn ex() -> &'static mut Ex {
    unsafe {
        if EX.is_null() {
            EX = Box::leak(Box::new(Ex::new()));
        }
        &mut *EX
    }
}

fn op2(k: K, w: u32, a: u128, b: u128) -> u128 {
    let r = match k {
        K::Add => a.wrapping_add(b),
        K::Sub => a.wrapping_sub(b),
        K::Mul => a.wrapping_mul(b),
        K::UDiv => {
            if b == 0 {
                u128::MAX
            } else {
                a / b
            }
        }
        K::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        K::SDiv => {
            let (x, y) = (sextw(a, w), sextw(b, w));
            if y == 0 {
                if x >= 0 {
                    u128::MAX
                } else {
                    1
                }
            } else {
                x.wrapping_div(y) as u128
            }
        }
        K::SRem => {
            let (x, y) = (sextw(a, w), sextw(b, w));
            if y == 0 {
                a
            } else {
                x.wrapping_rem(y) as u128
            }
        }
        K::And => a & b,
        K::Or => a | b,
        K::Xor => a ^ b,
        K::Shl => {
            if b >= w as u128 {
                0
            } else {
                a << b
            }
        }
        K::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        K::AShr => {
            let x = sextw(a, w);
            if b >= w as u128 {
                (x >> 127) as u128
            } else {
                (x >> b) as u128
            }
        }
        _ => unreachable!(),
    };
    maskw(r, w)
}

impl Ex {
    fn new() -> Ex {
        let mut e = Ex {
            nodes: vec![],
            supp: vec![],
            map: HashMap::default(),
            wide: vec![],
            wide_map: HashMap::new(),
            luts: vec![],
            lut_map: HashMap::new(),
            tabs: HashMap::default(),
            vars_memo: HashMap::default(),
        };
        // id 0 reserved (so that 0 can mean "concrete" in memory overlays)
        e.nodes.push(Node { k: K::Const, w: 0, a: 0, b: 0, c: 0 });
        e.supp.push(NONE);
        e
    }
    pub fn mk(&mut self, k: K, w: u32, a: u32, b: u32, c: u32, supp: u32) -> E {
        let n = Node { k, w: w as u16, a, b, c };
        if let Some(x) = self.map.get(&n) {
            return *x;
        }
        let id = self.nodes.len() as u32;
        self.nodes.push(n);
        self.supp.push(supp);
        self.map.insert(n, id);
        id
    }
    #[inline]
    pub fn w(&self, e: E) -> u32 {
        self.nodes[e as usize].w as u32
    }
    pub fn cst(&mut self, v: u64, w: u32) -> E {
        if w > 64 {
            return self.cstw(v as u128, w);
        }
        let v = mask(v, w);
        self.mk(K::Const, w, 0, v as u32, (v >> 32) as u32, NONE)
    }
    pub fn cstw(&mut self, v: u128, w: u32) -> E {
        let v = maskw(v, w);
        if w <= 64 {
            return self.cst(v as u64, w);
        }
        let n = self.wide.len() as u32;
        let id = *self.wide_map.entry(v).or_insert(n);
        if id == n {
            self.wide.push(v);
        }
        self.mk(K::ConstW, w, id, 0, 0, NONE)
    }
    pub fn var(&mut self, i: u32) -> E {
        self.mk(K::Var, 8, i, 0, 0, i + 1)
    }
    pub fn lut(&mut self, var: u32, t: &[u64; 256], w: u32) -> E {
        // identity / constant shortcuts
        if t.iter().all(|x| *x == t[0]) {
            return self.cst(t[0], w);
        }
        let r: Rc<[u64; 256]> = Rc::new(*t);
        let n = self.luts.len() as u32;
        let id = *self.lut_map.entry(r.clone()).or_insert(n);
        if id == n {
            self.luts.push(r);
        }
        self.mk(K::Lut, w, var, id, 0, var + 1)
    }
    pub fn cval(&self, e: E) -> Option<u64> {
        let n = &self.nodes[e as usize];
        if n.k == K::Const {
            Some(n.b as u64 | (n.c as u64) << 32)
        } else {
            None
        }
    }
    pub fn cvalw(&self, e: E) -> Option<u128> {
        let n = &self.nodes[e as usize];
        match n.k {
            K::Const => Some((n.b as u64 | (n.c as u64) << 32) as u128),
            K::ConstW => Some(self.wide[n.a as usize]),
            _ => None,
        }
    }
    fn js(&self, a: E, b: E) -> u32 {
        let (x, y) = (self.supp[a as usize], self.supp[b as usize]);
        if x == y || y == NONE {
            x
        } else if x == NONE {
            y
        } else {
            MANY
        }
    }
    pub fn bin(&mut self, k: K, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", k);
        let (ca, cb) = (self.cvalw(a), self.cvalw(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            let r = op2(k, w, x, y);
            return self.cstw(r, w);
        }
        let ones = maskw(u128::MAX, w);
        // commute constants to the right
        let (a, b, ca, cb) = match k {
            K::Add | K::Mul | K::And | K::Or | K::Xor if ca.is_some() => (b, a, cb, ca),
            K::Add | K::Mul | K::And | K::Or | K::Xor if cb.is_none() && a > b => (b, a, cb, ca),
            _ => (a, b, ca, cb),
        };
        let _ = ca;
        match (k, cb) {
            (K::Add | K::Sub | K::Or | K::Xor | K::Shl | K::LShr | K::AShr, Some(0)) => return a,
            (K::Mul | K::And, Some(0)) => return self.cstw(0, w),
            (K::Mul | K::UDiv | K::SDiv, Some(1)) => return a,
            (K::URem, Some(1)) => return self.cstw(0, w),
            (K::And, Some(x)) if x == ones => return a,
            (K::Or, Some(x)) if x == ones => return self.cstw(ones, w),
            (K::Shl | K::LShr, Some(x)) if x >= w as u128 => return self.cstw(0, w),
            _ => (),
        }
        if a == b {
            match k {
                K::Sub | K::Xor => return self.cstw(0, w),
                K::And | K::Or => return a,
                _ => (),
            }
        }
        let na = self.nodes[a as usize];
        match (k, cb) {
            // (x + c1) + c2
            (K::Add, Some(c2)) if na.k == K::Add => {
                if let Some(c1) = self.cvalw(na.b) {
                    let c = self.cstw(c1.wrapping_add(c2), w);
                    return self.bin(K::Add, na.a, c);
                }
            }
            (K::Sub, Some(c2)) => {
                let c = self.cstw((!c2).wrapping_add(1), w);
                return self.bin(K::Add, a, c);
            }
            (K::Xor, Some(c2)) if na.k == K::Xor => {
                if let Some(c1) = self.cvalw(na.b) {
                    let c = self.cstw(c1 ^ c2, w);
                    return self.bin(K::Xor, na.a, c);
                }
            }
            (K::And, Some(c2)) if na.k == K::And => {
                if let Some(c1) = self.cvalw(na.b) {
                    let c = self.cstw(c1 & c2, w);
                    return self.bin(K::And, na.a, c);
                }
            }
            // lshr/shl by constant on byte-structured values -> extract/concat
            (K::LShr, Some(s)) if w > 1 => {
                let hi = self.extract(a, s as u32, w - s as u32);
                return self.zext(hi, w);
            }
            (K::Shl, Some(s)) if w > 1 => {
                let lo = self.extract(a, 0, w - s as u32);
                let z = self.cstw(0, s as u32);
                return self.concat(lo, z);
            }
            // and with low mask -> zext(extract)
            (K::And, Some(m)) if m & (m + 1) == 0 && w > 1 => {
                let n = (128 - m.leading_zeros()) as u32;
                let lo = self.extract(a, 0, n);
                return self.zext(lo, w);
            }
            _ => (),
        }
        // or of disjoint pieces: concat(x,0) | zext(y) -> concat(x, y)
        if k == K::Or || k == K::Add {
            if let Some(r) = self.or_pieces(a, b, w).or_else(|| self.or_pieces(b, a, w)) {
                return r;
            }
        }
        let s = self.js(a, b);
        self.mk(k, w, a, b, 0, s)
    }
    fn or_pieces(&mut self, hi: E, lo: E, w: u32) -> Option<E> {
        let h = self.nodes[hi as usize];
        if h.k != K::Concat {
            return None;
        }
        if self.cvalw(h.b) != Some(0) {
            return None;
        }
        let lw = self.w(h.b);
        // lo must fit in lw bits
        let l = self.nodes[lo as usize];
        let fits = match l.k {
            K::ZExt => self.w(l.a) <= lw,
            K::Const | K::ConstW => self.cvalw(lo).unwrap() >> lw == 0,
            K::Concat => match self.cvalw(l.a) {
                Some(0) => self.w(l.b) <= lw,
                _ => false,
            },
            _ => false,
        };
        if !fits {
            return None;
        }
        let lo2 = self.extract(lo, 0, lw);
        let _ = w;
        Some(self.concat(h.a, lo2))
    }
    pub fn not(&mut self, a: E) -> E {
        let w = self.w(a);
        let o = self.cstw(u128::MAX, w);
        self.bin(K::Xor, a, o)
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.cst(1, 1);
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (mut a, mut b) = (a, b);
        if self.cvalw(a).is_some() {
            std::mem::swap(&mut a, &mut b);
        }
        match (self.cvalw(a), self.cvalw(b)) {
            (Some(x), Some(y)) => return self.cst((x == y) as u64, 1),
            (None, Some(c)) => {
                let n = self.nodes[a as usize];
                if w == 1 {
                    return if c == 1 { a } else { self.not(a) };
                }
                match n.k {
                    K::ZExt => {
                        let iw = self.w(n.a);
                        if iw < 128 && c >> iw != 0 {
                            return self.cst(0, 1);
                        }
                        let cc = self.cstw(c, iw);
                        return self.eq(n.a, cc);
                    }
                    K::Concat => {
                        let lw = self.w(n.b);
                        let hi = self.cstw(c >> lw, w - lw);
                        let lo = self.cstw(c, lw);
                        let x = self.eq(n.a, hi);
                        if self.cval(x) == Some(0) {
                            return x;
                        }
                        let y = self.eq(n.b, lo);
                        return self.bin(K::And, x, y);
                    }
                    K::Add => {
                        if let Some(k) = self.cvalw(n.b) {
                            let cc = self.cstw(c.wrapping_sub(k), w);
                            return self.eq(n.a, cc);
                        }
                    }
                    K::Xor => {
                        if let Some(k) = self.cvalw(n.b) {
                            let cc = self.cstw(c ^ k, w);
                            return self.eq(n.a, cc);
                        }
                    }
                    K::Ite => {
                        let (t, f) = (self.cvalw(n.b), self.cvalw(n.c));
                        if t.is_some() && t != Some(c) {
                            let y = self.eq(n.c, b);
                            let nc = self.not(n.a);
                            return self.bin(K::And, nc, y);
                        }
                        if f.is_some() && f != Some(c) {
                            let y = self.eq(n.b, b);
                            return self.bin(K::And, n.a, y);
                        }
                    }
                    _ => (),
                }
            }
            _ => {
                let na = self.nodes[a as usize];
                let nb = self.nodes[b as usize];
                if na.k == K::ZExt && nb.k == K::ZExt && self.w(na.a) == self.w(nb.a) {
                    return self.eq(na.a, nb.a);
                }
                if na.k == K::Concat && nb.k == K::Concat && self.w(na.b) == self.w(nb.b) {
                    let x = self.eq(na.a, nb.a);
                    let y = self.eq(na.b, nb.b);
                    return self.bin(K::And, x, y);
                }
                if w == 1 {
                    let x = self.bin(K::Xor, a, b);
                    return self.not(x);
                }
                if a > b {
                    std::mem::swap(&mut a, &mut b);
                }
            }
        }
        let s = self.js(a, b);
        self.mk(K::Eq, 1, a, b, 0, s)
    }
    pub fn ult(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.cst(0, 1);
        }
        let w = self.w(a);
        let (ca, cb) = (self.cvalw(a), self.cvalw(b));
        match (ca, cb) {
            (Some(x), Some(y)) => return self.cst((x < y) as u64, 1),
            (_, Some(0)) => return self.cst(0, 1),
            (None, Some(1)) => {
                let z = self.cstw(0, w);
                return self.eq(a, z);
            }
            (None, Some(c)) => {
                let n = self.nodes[a as usize];
                if n.k == K::ZExt {
                    let iw = self.w(n.a);
                    if c >> iw != 0 {
                        return self.cst(1, 1);
                    }
                    let cc = self.cstw(c, iw);
                    return self.ult(n.a, cc);
                }
            }
            (Some(c), None) => {
                if c == maskw(u128::MAX, w) {
                    return self.cst(0, 1);
                }
                let n = self.nodes[b as usize];
                if n.k == K::ZExt {
                    let iw = self.w(n.a);
                    if c >= maskw(u128::MAX, iw) {
                        return self.cst(0, 1);
                    }
                    let cc = self.cstw(c, iw);
                    return self.ult(cc, n.a);
                }
            }
            _ => {
                let na = self.nodes[a as usize];
                let nb = self.nodes[b as usize];
                if na.k == K::ZExt && nb.k == K::ZExt && self.w(na.a) == self.w(nb.a) {
                    return self.ult(na.a, nb.a);
                }
            }
        }
        let s = self.js(a, b);
        self.mk(K::Ult, 1, a, b, 0, s)
    }
    pub fn slt(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.cst(0, 1);
        }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cvalw(a), self.cvalw(b)) {
            return self.cst((sextw(x, w) < sextw(y, w)) as u64, 1);
        }
        let s = self.js(a, b);
        self.mk(K::Slt, 1, a, b, 0, s)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if a == b {
            return a;
        }
        if let Some(x) = self.cval(c) {
            return if x != 0 { a } else { b };
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if w == 1 {
            match (self.cval(a), self.cval(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(K::Or, c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.bin(K::And, n, b);
                }
                (None, Some(0)) => return self.bin(K::And, c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.bin(K::Or, n, a);
                }
                _ => (),
            }
        }
        let n = self.nodes[c as usize];
        if n.k == K::Xor && self.cval(n.b) == Some(1) {
            return self.ite(n.a, b, a);
        }
        let s1 = self.js(c, a);
        let s2 = self.supp[b as usize];
        let s = if s1 == s2 || s2 == NONE {
            s1
        } else if s1 == NONE {
            s2
        } else {
            MANY
        };
        self.mk(K::Ite, w, c, a, b, s)
    }
    pub fn concat(&mut self, hi: E, lo: E) -> E {
        let (hw, lw) = (self.w(hi), self.w(lo));
        if hw == 0 {
            return lo;
        }
        if lw == 0 {
            return hi;
        }
        let w = hw + lw;
        if let (Some(x), Some(y)) = (self.cvalw(hi), self.cvalw(lo)) {
            return self.cstw(x << lw | y, w);
        }
        if self.cvalw(hi) == Some(0) {
            return self.zext(lo, w);
        }
        let (nh, nl) = (self.nodes[hi as usize], self.nodes[lo as usize]);
        if nh.k == K::Extract && nl.k == K::Extract && nh.a == nl.a && nl.b + lw == nh.b {
            return self.extract(nh.a, nl.b, w);
        }
        // concat(concat(x, ex1), ex2) with adjacent extracts
        if nh.k == K::Concat && nl.k == K::Extract {
            let m = self.nodes[nh.b as usize];
            if m.k == K::Extract && m.a == nl.a && nl.b + lw == m.b {
                let j = self.extract(m.a, nl.b, m.w as u32 + lw);
                return self.concat(nh.a, j);
            }
        }
        // hi is zext(extract) of the same source adjacent: keep zext outermost
        if nh.k == K::ZExt {
            let inner = self.concat(nh.a, lo);
            return self.zext(inner, w);
        }
        let s = self.js(hi, lo);
        self.mk(K::Concat, w, hi, lo, 0, s)
    }
    pub fn extract(&mut self, a: E, lo: u32, w: u32) -> E {
        let aw = self.w(a);
        debug_assert!(lo + w <= aw);
        if lo == 0 && w == aw {
            return a;
        }
        if let Some(x) = self.cvalw(a) {
            return self.cstw(x >> lo, w);
        }
        let n = self.nodes[a as usize];
        match n.k {
            K::Extract => return self.extract(n.a, n.b + lo, w),
            K::Concat => {
                let lw = self.w(n.b);
                if lo >= lw {
                    return self.extract(n.a, lo - lw, w);
                }
                if lo + w <= lw {
                    return self.extract(n.b, lo, w);
                }
                let h = self.extract(n.a, 0, lo + w - lw);
                let l = self.extract(n.b, lo, lw - lo);
                return self.concat(h, l);
            }
            K::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw {
                    return self.cstw(0, w);
                }
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                let l = self.extract(n.a, lo, iw - lo);
                return self.zext(l, w);
            }
            K::SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
            }
            K::And | K::Or | K::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return self.bin(n.k, x, y);
            }
            K::Add | K::Sub | K::Mul if lo == 0 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                return self.bin(n.k, x, y);
            }
            K::Ite => {
                if self.cvalw(n.b).is_some() || self.cvalw(n.c).is_some() {
                    let x = self.extract(n.b, lo, w);
                    let y = self.extract(n.c, lo, w);
                    return self.ite(n.a, x, y);
                }
            }
            K::Lut => {
                let mut t = *self.luts[n.b as usize];
                for x in t.iter_mut() {
                    *x = mask(*x >> lo, w);
                }
                return self.lut(n.a, &t, w);
            }
            _ => (),
        }
        let s = self.supp[a as usize];
        self.mk(K::Extract, w, a, lo, 0, s)
    }
    pub fn zext(&mut self, a: E, w: u32) -> E {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        if let Some(x) = self.cvalw(a) {
            return self.cstw(x, w);
        }
        let n = self.nodes[a as usize];
        if n.k == K::ZExt {
            return self.zext(n.a, w);
        }
        if n.k == K::Lut && w <= 64 {
            return self.mk(K::Lut, w, n.a, n.b, 0, n.a + 1);
        }
        let s = self.supp[a as usize];
        self.mk(K::ZExt, w, a, 0, 0, s)
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        if let Some(x) = self.cvalw(a) {
            return self.cstw(sextw(x, aw) as u128, w);
        }
        let n = self.nodes[a as usize];
        if n.k == K::ZExt {
            return self.zext(n.a, w);
        }
        let s = self.supp[a as usize];
        self.mk(K::SExt, w, a, 0, 0, s)
    }

    /// Table of values of a unary expression over its variable.
    pub fn tab(&mut self, e: E) -> Rc<[u64; 256]> {
        if let Some(t) = self.tabs.get(&e) {
            return t.clone();
        }
        if self.tabs.len() > 60000 {
            self.tabs.clear();
        }
        let n = self.nodes[e as usize];
        let w = n.w as u32;
        let mut r = [0u64; 256];
        match n.k {
            K::Const => {
                let v = n.b as u64 | (n.c as u64) << 32;
                r = [v; 256];
                return Rc::new(r);
            }
            K::Var => {
                for (i, x) in r.iter_mut().enumerate() {
                    *x = i as u64;
                }
            }
            K::Lut => r = *self.luts[n.b as usize],
            K::Ite => {
                let c = self.tab(n.a);
                let a = self.tab(n.b);
                let b = self.tab(n.c);
                for i in 0..256 {
                    r[i] = if c[i] != 0 { a[i] } else { b[i] };
                }
            }
            K::Eq | K::Ult | K::Slt => {
                let iw = self.w(n.a);
                if iw > 64 {
                    return self.tab_slow(e);
                }
                let a = self.tab(n.a);
                let b = self.tab(n.b);
                for i in 0..256 {
                    r[i] = match n.k {
                        K::Eq => a[i] == b[i],
                        K::Ult => a[i] < b[i],
                        _ => {
                            let (x, y) = (crate::ir::sext(a[i], iw), crate::ir::sext(b[i], iw));
                            x < y
                        }
                    } as u64;
                }
            }
            _ if w > 64 => return self.tab_slow(e),
            K::Concat => {
                let lw = self.w(n.b);
                let a = self.tab(n.a);
                let b = self.tab(n.b);
                for i in 0..256 {
                    r[i] = a[i] << lw | b[i];
                }
            }
            K::Extract => {
                if self.w(n.a) > 64 {
                    return self.tab_slow(e);
                }
                let a = self.tab(n.a);
                for i in 0..256 {
                    r[i] = mask(a[i] >> n.b, w);
                }
            }
            K::ZExt => r = *self.tab(n.a),
            K::SExt => {
                let iw = self.w(n.a);
                let a = self.tab(n.a);
                for i in 0..256 {
                    r[i] = mask(crate::ir::sext(a[i], iw) as u64, w);
                }
            }
            K::Add => {
                let a = self.tab(n.a);
                let b = self.tab(n.b);
                for i in 0..256 {
                    r[i] = mask(a[i].wrapping_add(b[i]), w);
                }
            }
            K::Sub => {
                let a = self.tab(n.a);
                let b = self.tab(n.b);
                for i in 0..256 {
                    r[i] = mask(a[i].wrapping_sub(b[i]), w);
                }
            }
            K::And => {
                let a = self.tab(n.a);
                let b = self.tab(n.b);
                for i in 0..256 {
                    r[i] = a[i] & b[i];
                }
            }
            K::Or => {
                let a = self.tab(n.a);
                let b = self.tab(n.b);
                for i in 0..256 {
                    r[i] = a[i] | b[i];
                }
            }
            K::Xor => {
                let a = self.tab(n.a);
                let b = self.tab(n.b);
                for i in 0..256 {
                    r[i] = a[i] ^ b[i];
                }
            }
            K::ConstW => return self.tab_slow(e),
            k => {
                let a = self.tab(n.a);
                let b = self.tab(n.b);
                for i in 0..256 {
                    r[i] = op2(k, w, a[i] as u128, b[i] as u128) as u64;
                }
            }
        }
        let t = Rc::new(r);
        self.tabs.insert(e, t.clone());
        t
    }
    fn tab_slow(&mut self, e: E) -> Rc<[u64; 256]> {
        let s = self.supp[e as usize];
        let mut r = [0u64; 256];
        if s == NONE {
            r = [self.cvalw(e).unwrap() as u64; 256];
        } else {
            let v = s - 1;
            for (i, x) in r.iter_mut().enumerate() {
                let mut memo = HashMap::default();
                *x = self.eval_with(e, &|k| if k == v { i as u8 } else { 0 }, &mut memo) as u64;
            }
        }
        let t = Rc::new(r);
        self.tabs.insert(e, t.clone());
        t
    }
    pub fn eval(&self, e: E, model: &[u8]) -> u128 {
        let mut memo = HashMap::default();
        self.eval_with(e, &|k| model.get(k as usize).copied().unwrap_or(0), &mut memo)
    }
    pub fn eval_with(&self, e: E, m: &dyn Fn(u32) -> u8, memo: &mut HashMap<E, u128, BuildFx>) -> u128 {
        let n = self.nodes[e as usize];
        match n.k {
            K::Const => return (n.b as u64 | (n.c as u64) << 32) as u128,
            K::ConstW => return self.wide[n.a as usize],
            K::Var => return m(n.a) as u128,
            K::Lut => return self.luts[n.b as usize][m(n.a) as usize] as u128,
            _ => (),
        }
        if let Some(x) = memo.get(&e) {
            return *x;
        }
        let w = n.w as u32;
        let r = match n.k {
            K::Ite => {
                if self.eval_with(n.a, m, memo) != 0 {
                    self.eval_with(n.b, m, memo)
                } else {
                    self.eval_with(n.c, m, memo)
                }
            }
            K::Eq => (self.eval_with(n.a, m, memo) == self.eval_with(n.b, m, memo)) as u128,
            K::Ult => (self.eval_with(n.a, m, memo) < self.eval_with(n.b, m, memo)) as u128,
            K::Slt => {
                let iw = self.w(n.a);
                (sextw(self.eval_with(n.a, m, memo), iw) < sextw(self.eval_with(n.b, m, memo), iw)) as u128
            }
            K::Concat => {
                let lw = self.w(n.b);
                self.eval_with(n.a, m, memo) << lw | self.eval_with(n.b, m, memo)
            }
            K::Extract => maskw(self.eval_with(n.a, m, memo) >> n.b, w),
            K::ZExt => self.eval_with(n.a, m, memo),
            K::SExt => {
                let iw = self.w(n.a);
                maskw(sextw(self.eval_with(n.a, m, memo), iw) as u128, w)
            }
            k => {
                let a = self.eval_with(n.a, m, memo);
                let b = self.eval_with(n.b, m, memo);
                op2(k, w, a, b)
            }
        };
        memo.insert(e, r);
        r
    }
    /// Sorted list of variables in e.
    pub fn vars(&mut self, e: E) -> Rc<[u32]> {
        match self.supp[e as usize] {
            NONE => return Rc::new([]),
            MANY => (),
            v => return Rc::new([v - 1]),
        }
        if let Some(x) = self.vars_memo.get(&e) {
            return x.clone();
        }
        let n = self.nodes[e as usize];
        let kids: &[u32] = match n.k {
            K::Ite => &[n.a, n.b, n.c],
            K::Extract | K::ZExt | K::SExt => &[n.a],
            _ => &[n.a, n.b],
        };
        let mut v: Vec<u32> = vec![];
        for k in kids {
            v.extend(self.vars(*k).iter());
        }
        v.sort();
        v.dedup();
        let r: Rc<[u32]> = v.into();
        self.vars_memo.insert(e, r.clone());
        r
    }
}
