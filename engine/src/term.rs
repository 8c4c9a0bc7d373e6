//! Hash-consed bit-vector terms with local simplification and unsigned interval information.

use crate::bv::{mask, sext128, Bv};
use std::collections::HashMap;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct T(pub u32);

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Bop {
    And,
    Or,
    Xor,
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    Shl,
    LShr,
    AShr,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Const(Bv),
    /// sequence number on the path, kind (0 = input, 1 = uninitialised memory)
    Var(u32, u8),
    Not(T),
    Bin(Bop, T, T),
    Eq(T, T),
    Ult(T, T),
    Slt(T, T),
    Ite(T, T, T),
    Concat(T, T),
    Extract(T, u32),
    ZExt(T),
    SExt(T),
    /// full double-width unsigned product of two operands of equal width
    MulAtom(T, T),
}

pub struct Info {
    pub node: Node,
    pub w: u32,
    pub lo: u128,
    pub hi: u128,
    pub uninit: bool,
    /// inputs the term depends on (bit 127: others)
    pub sup: u128,
}

pub struct Pool {
    pub info: Vec<Info>,
    map: HashMap<(Node, u32), T, std::hash::BuildHasherDefault<Fx>>,
}

#[derive(Default, Clone)]
pub struct Fx(u64);
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64);
        }
    }
    fn write_u8(&mut self, v: u8) {
        self.write_u64(v as u64);
    }
    fn write_u32(&mut self, v: u32) {
        self.write_u64(v as u64);
    }
    fn write_usize(&mut self, v: usize) {
        self.write_u64(v as u64);
    }
    fn write_u128(&mut self, v: u128) {
        self.write_u64(v as u64);
        self.write_u64((v >> 64) as u64);
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517c_c1b7_2722_0a95);
        self.0 ^= self.0 >> 29;
    }
}

pub type FxMap<K, V> = HashMap<K, V, std::hash::BuildHasherDefault<Fx>>;

impl Pool {
    pub fn new() -> Pool {
        Pool { info: Vec::new(), map: HashMap::default() }
    }
    pub fn len(&self) -> usize {
        self.info.len()
    }
    pub fn w(&self, t: T) -> u32 {
        self.info[t.0 as usize].w
    }
    pub fn node(&self, t: T) -> &Node {
        &self.info[t.0 as usize].node
    }
    pub fn range(&self, t: T) -> (u128, u128) {
        let i = &self.info[t.0 as usize];
        (i.lo, i.hi)
    }
    pub fn as_const(&self, t: T) -> Option<&Bv> {
        match &self.info[t.0 as usize].node {
            Node::Const(b) => Some(b),
            _ => None,
        }
    }
    pub fn as_u128(&self, t: T) -> Option<u128> {
        match &self.info[t.0 as usize].node {
            Node::Const(Bv::S(b)) => Some(*b),
            _ => None,
        }
    }
    pub fn sup(&self, t: T) -> u128 {
        self.info[t.0 as usize].sup
    }
    pub fn uninit(&self, t: T) -> bool {
        self.info[t.0 as usize].uninit
    }

    fn intern(&mut self, node: Node, w: u32) -> T {
        if let Some(t) = self.map.get(&(node.clone(), w)) {
            return *t;
        }
        let (lo, hi) = self.compute_range(&node, w);
        let uninit = match &node {
            Node::Const(_) => false,
            Node::Var(_, k) => *k == 1,
            Node::Not(a) | Node::Extract(a, _) | Node::ZExt(a) | Node::SExt(a) => self.uninit(*a),
            Node::Bin(_, a, b)
            | Node::Eq(a, b)
            | Node::Ult(a, b)
            | Node::Slt(a, b)
            | Node::Concat(a, b)
            | Node::MulAtom(a, b) => self.uninit(*a) || self.uninit(*b),
            Node::Ite(a, b, c) => self.uninit(*a) || self.uninit(*b) || self.uninit(*c),
        };
        let sup = match &node {
            Node::Const(_) => 0,
            Node::Var(s, 0) if *s < 127 => 1u128 << *s,
            Node::Var(..) => 1u128 << 127,
            Node::Not(a) | Node::Extract(a, _) | Node::ZExt(a) | Node::SExt(a) => self.sup(*a),
            Node::Bin(_, a, b)
            | Node::Eq(a, b)
            | Node::Ult(a, b)
            | Node::Slt(a, b)
            | Node::Concat(a, b)
            | Node::MulAtom(a, b) => self.sup(*a) | self.sup(*b),
            Node::Ite(a, b, c) => self.sup(*a) | self.sup(*b) | self.sup(*c),
        };
        let t = T(self.info.len() as u32);
        self.info.push(Info { node: node.clone(), w, lo, hi, uninit, sup });
        self.map.insert((node, w), t);
        t
    }

    fn compute_range(&self, node: &Node, w: u32) -> (u128, u128) {
        if w > 128 {
            return (0, u128::MAX);
        }
        let m = mask(w);
        let full = (0, m);
        match node {
            Node::Const(b) => (b.low128(), b.low128()),
            Node::Var(..) | Node::Not(_) => {
                if let Node::Not(a) = node {
                    let (l, h) = self.range(*a);
                    return (!h & m, !l & m);
                }
                full
            }
            Node::Bin(op, a, b) => {
                let (al, ah) = self.range(*a);
                let (bl, bh) = self.range(*b);
                match op {
                    Bop::And => (0, ah.min(bh)),
                    Bop::Or => {
                        let x = ah | bh;
                        let k = 128 - x.leading_zeros();
                        (al.max(bl), mask(k))
                    }
                    Bop::Xor => {
                        let x = ah | bh;
                        (0, mask(128 - x.leading_zeros()))
                    }
                    Bop::Add => match ah.checked_add(bh) {
                        Some(h) if h <= m => (al + bl, h),
                        _ => full,
                    },
                    Bop::Sub => {
                        if al >= bh {
                            (al - bh, ah - bl)
                        } else {
                            full
                        }
                    }
                    Bop::Mul => match ah.checked_mul(bh) {
                        Some(h) if h <= m => (al * bl, h),
                        _ => full,
                    },
                    Bop::UDiv => {
                        if bl > 0 {
                            (al / bh, ah / bl)
                        } else {
                            full
                        }
                    }
                    Bop::URem => {
                        if bl > 0 {
                            (0, ah.min(bh - 1))
                        } else {
                            (0, ah)
                        }
                    }
                    Bop::Shl => {
                        if bl == bh && bh < w as u128 && ah <= (m >> bh) {
                            (al << bl, ah << bh)
                        } else {
                            full
                        }
                    }
                    Bop::LShr => {
                        let l = if bh >= 128 { 0 } else { al >> bh };
                        let h = if bl >= 128 { 0 } else { ah >> bl };
                        (l, h)
                    }
                    _ => full,
                }
            }
            Node::Eq(..) | Node::Ult(..) | Node::Slt(..) => (0, 1),
            Node::Ite(_, a, b) => {
                let (al, ah) = self.range(*a);
                let (bl, bh) = self.range(*b);
                (al.min(bl), ah.max(bh))
            }
            Node::Concat(a, b) => {
                let wb = self.w(*b);
                let (al, ah) = self.range(*a);
                let (bl, bh) = self.range(*b);
                ((al << wb) | bl, (ah << wb) | bh)
            }
            Node::Extract(a, lo) => {
                if self.w(*a) > 128 {
                    return full;
                }
                let (al, ah) = self.range(*a);
                if (al >> lo) >> (w - 1) >> 1 == (ah >> lo) >> (w - 1) >> 1 {
                    ((al >> lo) & m, (ah >> lo) & m)
                } else {
                    full
                }
            }
            Node::ZExt(a) => self.range(*a),
            Node::SExt(a) => {
                let wa = self.w(*a);
                let (al, ah) = self.range(*a);
                if ah < (1u128 << (wa - 1)) {
                    (al, ah)
                } else {
                    full
                }
            }
            Node::MulAtom(a, b) => {
                let (al, ah) = self.range(*a);
                let (bl, bh) = self.range(*b);
                (al.wrapping_mul(bl), ah.wrapping_mul(bh))
            }
        }
    }

    pub fn con(&mut self, v: u128, w: u32) -> T {
        let b = Bv::from_u128(v, w);
        self.intern(Node::Const(b), w)
    }
    pub fn con_bv(&mut self, b: Bv, w: u32) -> T {
        self.intern(Node::Const(b), w)
    }
    pub fn var(&mut self, seq: u32, kind: u8, w: u32) -> T {
        self.intern(Node::Var(seq, kind), w)
    }
    pub fn tru(&mut self) -> T {
        self.con(1, 1)
    }
    pub fn fls(&mut self) -> T {
        self.con(0, 1)
    }

    pub fn not(&mut self, a: T) -> T {
        let w = self.w(a);
        match self.node(a) {
            Node::Const(b) => {
                let r = b.not(w);
                self.con_bv(r, w)
            }
            Node::Not(x) => *x,
            _ => self.intern(Node::Not(a), w),
        }
    }

    pub fn bin(&mut self, op: Bop, a: T, b: T) -> T {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            let r = eval_bin(op, x, y, w);
            return self.con_bv(r, w);
        }
        let (a, b) = match op {
            Bop::And | Bop::Or | Bop::Xor | Bop::Add | Bop::Mul => {
                // constants to the right, otherwise ordered
                if self.as_const(a).is_some() || (self.as_const(b).is_none() && a > b) {
                    (b, a)
                } else {
                    (a, b)
                }
            }
            _ => (a, b),
        };
        let bc = self.as_const(b).cloned();
        let b_zero = bc.as_ref().map_or(false, |c| c.is_zero());
        let b_ones = bc.as_ref().map_or(false, |c| c.is_ones(w));
        match op {
            Bop::And => {
                if b_zero || a == b {
                    return b;
                }
                if b_ones {
                    return a;
                }
                if self.is_not_of(a, b) {
                    return self.con(0, w);
                }
                if let Some(Bv::S(c)) = &bc {
                    // contiguous low mask => zext(extract)
                    let c = *c;
                    let k = 128 - c.leading_zeros();
                    if c == mask(k) && k < w {
                        let e = self.extract(a, 0, k);
                        return self.zext(e, w);
                    }
                    let tz = c.trailing_zeros();
                    if (c >> tz) == mask(k - tz) {
                        let e = self.extract(a, tz, k - tz);
                        let z = self.con(0, tz);
                        let e = self.concat(e, z);
                        return self.zext(e, w);
                    }
                }
            }
            Bop::Or => {
                if b_zero || a == b {
                    return a;
                }
                if b_ones {
                    return b;
                }
                if self.is_not_of(a, b) {
                    let z = Bv::zero(w).not(w);
                    return self.con_bv(z, w);
                }
                if let Some(t) = self.or_as_concat(a, b, w) {
                    return t;
                }
            }
            Bop::Xor => {
                if b_zero {
                    return a;
                }
                if a == b {
                    return self.con(0, w);
                }
                if b_ones {
                    return self.not(a);
                }
            }
            Bop::Add => {
                if b_zero {
                    return a;
                }
                // (x + c1) + c2
                if let (Some(c), Node::Bin(Bop::Add, x, y)) = (&bc, self.node(a)) {
                    let (x, y) = (*x, *y);
                    if let Some(c1) = self.as_const(y) {
                        let s = c1.add(c, w);
                        let s = self.con_bv(s, w);
                        return self.bin(Bop::Add, x, s);
                    }
                }
                // zero-extended operands with no carry out: narrow
                if w == 1 {
                    return self.bin(Bop::Xor, a, b);
                }
                // x + (y - x) = y ; (x - y) + y = x
                if let Node::Bin(Bop::Sub, x, y) = self.node(a) {
                    if *y == b {
                        return *x;
                    }
                }
                if let Node::Bin(Bop::Sub, x, y) = self.node(b) {
                    if *y == a {
                        return *x;
                    }
                }
            }
            Bop::Sub => {
                if b_zero {
                    return a;
                }
                if a == b {
                    return self.con(0, w);
                }
                if let Some(c) = &bc {
                    let n = c.neg(w);
                    let n = self.con_bv(n, w);
                    return self.bin(Bop::Add, a, n);
                }
                if w == 1 {
                    return self.bin(Bop::Xor, a, b);
                }
                // (x + b) - b, (b + x) - b
                if let Node::Bin(Bop::Add, x, y) = self.node(a) {
                    if *y == b {
                        return *x;
                    }
                    if *x == b {
                        return *y;
                    }
                }
                if self.as_const(a).is_some() {
                    if let Node::Ite(c, x, y) = self.node(b).clone() {
                        if self.const_leaves(x, 3) && self.const_leaves(y, 3) {
                            let p = self.bin(Bop::Sub, a, x);
                            let q = self.bin(Bop::Sub, a, y);
                            return self.ite(c, p, q);
                        }
                    }
                }
                // with headroom: subtract at the narrowest width that cannot wrap
                if let (Node::SExt(x), Node::SExt(y)) = (self.node(a).clone(), self.node(b).clone()) {
                    let n = self.w(x).max(self.w(y)) + 1;
                    if n < w {
                        let x = self.sext(x, n);
                        let y = self.sext(y, n);
                        let d = self.bin(Bop::Sub, x, y);
                        return self.sext(d, w);
                    }
                }
                if let (Node::ZExt(x), Node::ZExt(y)) = (self.node(a).clone(), self.node(b).clone()) {
                    let n = self.w(x).max(self.w(y)) + 1;
                    if n < w {
                        let x = self.zext(x, n);
                        let y = self.zext(y, n);
                        let d = self.bin(Bop::Sub, x, y);
                        return self.sext(d, w);
                    }
                }
            }
            Bop::Mul => {
                if b_zero {
                    return b;
                }
                if let Some(c) = &bc {
                    if c.is_ones(w) {
                        return self.neg(a);
                    }
                    if let Bv::S(v) = c {
                        if *v == 1 {
                            return a;
                        }
                        if v.is_power_of_two() {
                            let k = self.con(v.trailing_zeros() as u128, w);
                            return self.bin(Bop::Shl, a, k);
                        }
                    }
                } else if let Some(r) = self.mul_by_cases(a, b, w).or_else(|| self.mul_by_cases(b, a, w)) {
                    return r;
                } else if w >= 8 && w % 2 == 0 {
                    // product of two zero-extended halves
                    let h = w / 2;
                    let ra = self.range(a);
                    let rb = self.range(b);
                    if w <= 128 && ra.1 <= mask(h) && rb.1 <= mask(h) {
                        let x = self.extract(a, 0, h);
                        let y = self.extract(b, 0, h);
                        return self.mul_atom(x, y);
                    }
                }
            }
            Bop::UDiv => {
                if let Some(Bv::S(v)) = &bc {
                    if *v == 1 {
                        return a;
                    }
                    if v.is_power_of_two() {
                        let k = self.con(v.trailing_zeros() as u128, w);
                        return self.bin(Bop::LShr, a, k);
                    }
                }
                let (al, ah) = self.range(a);
                let (bl, _) = self.range(b);
                let _ = al;
                if w <= 128 && ah < bl {
                    return self.con(0, w);
                }
                // narrow when both operands are small
                if let Some(n) = self.narrow_width(a, b, w) {
                    let x = self.extract(a, 0, n);
                    let y = self.extract(b, 0, n);
                    let q = self.bin(Bop::UDiv, x, y);
                    // division by zero differs between widths: only narrow if b is nonzero
                    return self.zext(q, w);
                }
            }
            Bop::URem => {
                if let Some(Bv::S(v)) = &bc {
                    if v.is_power_of_two() {
                        let m = self.con(*v - 1, w);
                        return self.bin(Bop::And, a, m);
                    }
                }
                let (_, ah) = self.range(a);
                let (bl, _) = self.range(b);
                if w <= 128 && ah < bl {
                    return a;
                }
                if let Some(n) = self.narrow_width(a, b, w) {
                    let x = self.extract(a, 0, n);
                    let y = self.extract(b, 0, n);
                    let q = self.bin(Bop::URem, x, y);
                    return self.zext(q, w);
                }
            }
            Bop::SDiv | Bop::SRem => {
                let (_, ah) = self.range(a);
                let (_, bh) = self.range(b);
                if w <= 128 && ah < (1u128 << (w - 1)) && bh < (1u128 << (w - 1)) {
                    return self.bin(if op == Bop::SDiv { Bop::UDiv } else { Bop::URem }, a, b);
                }
            }
            Bop::Shl => {
                if let Some(c) = &bc {
                    let n = c.amount();
                    if n == 0 {
                        return a;
                    }
                    if n >= w as u64 {
                        return self.con(0, w);
                    }
                    let n = n as u32;
                    let e = self.extract(a, 0, w - n);
                    let z = self.con(0, n);
                    return self.concat(e, z);
                }
                if self.as_const(a).map_or(false, |c| c.is_zero()) {
                    return a;
                }
            }
            Bop::LShr => {
                if let Some(c) = &bc {
                    let n = c.amount();
                    if n == 0 {
                        return a;
                    }
                    if n >= w as u64 {
                        return self.con(0, w);
                    }
                    let n = n as u32;
                    let e = self.extract(a, n, w - n);
                    return self.zext(e, w);
                }
                if self.as_const(a).map_or(false, |c| c.is_zero()) {
                    return a;
                }
            }
            Bop::AShr => {
                if let Some(c) = &bc {
                    let n = c.amount();
                    if n == 0 {
                        return a;
                    }
                    let n = n.min(w as u64 - 1) as u32;
                    let e = self.extract(a, n, w - n);
                    return self.sext(e, w);
                }
            }
        }
        // distribute over ite with constant arms and a constant operand
        if bc.is_some() {
            if let Node::Ite(c, x, y) = self.node(a) {
                let (c, x, y) = (*c, *x, *y);
                if self.as_const(x).is_some() && self.as_const(y).is_some() {
                    let r1 = self.bin(op, x, b);
                    let r2 = self.bin(op, y, b);
                    return self.ite(c, r1, r2);
                }
            }
        }
        self.intern(Node::Bin(op, a, b), w)
    }

    fn narrow_width(&self, a: T, b: T, w: u32) -> Option<u32> {
        if w > 128 || w <= 8 {
            return None;
        }
        let (_, ah) = self.range(a);
        let (bl, bh) = self.range(b);
        if bl == 0 {
            return None;
        }
        let k = (128 - (ah | bh).leading_zeros()).max(1);
        if k < w {
            Some(k)
        } else {
            None
        }
    }

    fn is_not_of(&self, a: T, b: T) -> bool {
        matches!(self.node(a), Node::Not(x) if *x == b) || matches!(self.node(b), Node::Not(x) if *x == a)
    }

    /// a | b where b only has bits above those of a (or the reverse): a concatenation
    fn or_as_concat(&mut self, a: T, b: T, w: u32) -> Option<T> {
        if w > 128 {
            return None;
        }
        for (hi, lo) in [(a, b), (b, a)] {
            // number of known-zero low bits of hi
            let z = match self.node(hi) {
                Node::Concat(_, l) if self.as_const(*l).map_or(false, |c| c.is_zero()) => self.w(*l),
                Node::ZExt(x) => match self.node(*x) {
                    Node::Concat(_, l) if self.as_const(*l).map_or(false, |c| c.is_zero()) => self.w(*l),
                    _ => 0,
                },
                _ => 0,
            };
            if z == 0 || z >= w {
                continue;
            }
            let (_, lh) = self.range(lo);
            if lh <= mask(z) {
                let h = self.extract(hi, z, w - z);
                let l = self.extract(lo, 0, z);
                return Some(self.concat(h, l));
            }
        }
        None
    }

    fn mul_by_cases(&mut self, a: T, b: T, w: u32) -> Option<T> {
        match self.node(a).clone() {
            Node::Ite(c, x, y) if self.const_leaves(x, 3) && self.const_leaves(y, 3) => {
                let p = self.bin(Bop::Mul, b, x);
                let q = self.bin(Bop::Mul, b, y);
                Some(self.ite(c, p, q))
            }
            Node::ZExt(c) if self.w(c) == 1 => {
                let z = self.con(0, w);
                Some(self.ite(c, b, z))
            }
            Node::SExt(c) if self.w(c) == 1 => {
                let z = self.con(0, w);
                let n = self.neg(b);
                Some(self.ite(c, n, z))
            }
            _ => None,
        }
    }

    pub fn mul_atom(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (a, b) = if self.as_const(a).is_some() || (self.as_const(b).is_none() && a > b) { (b, a) } else { (a, b) };
        if self.as_const(b).is_some() {
            let x = self.zext(a, 2 * w);
            let y = self.zext(b, 2 * w);
            if let (Some(p), Some(q)) = (self.as_const(x), self.as_const(y)) {
                let r = p.mul(q, 2 * w);
                return self.con_bv(r, 2 * w);
            }
            let yc = self.as_u128(y);
            match yc {
                Some(0) => return y,
                Some(1) => return x,
                _ => {}
            }
            // plain multiplication by a constant (avoid re-entering the atom rule)
            if let Some(v) = yc {
                if v.is_power_of_two() {
                    return self.bin(Bop::Mul, x, y);
                }
            }
            return self.intern(Node::Bin(Bop::Mul, x, y), 2 * w);
        }
        self.intern(Node::MulAtom(a, b), 2 * w)
    }

    pub fn extract(&mut self, a: T, lo: u32, w: u32) -> T {
        let wa = self.w(a);
        debug_assert!(lo + w <= wa, "extract {} {} of {}", lo, w, wa);
        if w == 0 {
            return self.con(0, 0);
        }
        if lo == 0 && w == wa {
            return a;
        }
        match self.node(a).clone() {
            Node::Const(b) => {
                let r = b.extract(lo, wa, w);
                self.con_bv(r, w)
            }
            Node::Extract(x, l2) => self.extract(x, lo + l2, w),
            Node::Concat(h, l) => {
                let wl = self.w(l);
                if lo + w <= wl {
                    self.extract(l, lo, w)
                } else if lo >= wl {
                    self.extract(h, lo - wl, w)
                } else {
                    let a1 = self.extract(l, lo, wl - lo);
                    let a2 = self.extract(h, 0, lo + w - wl);
                    self.concat(a2, a1)
                }
            }
            Node::ZExt(x) => {
                let wx = self.w(x);
                if lo >= wx {
                    self.con(0, w)
                } else if lo + w <= wx {
                    self.extract(x, lo, w)
                } else {
                    let e = self.extract(x, lo, wx - lo);
                    self.zext(e, w)
                }
            }
            Node::SExt(x) => {
                let wx = self.w(x);
                if lo + w <= wx {
                    self.extract(x, lo, w)
                } else if lo < wx {
                    let e = self.extract(x, lo, wx - lo);
                    self.sext(e, w)
                } else {
                    let e = self.extract(x, wx - 1, 1);
                    self.sext(e, w)
                }
            }
            Node::Not(x) => {
                let e = self.extract(x, lo, w);
                self.not(e)
            }
            Node::Bin(op @ (Bop::And | Bop::Or | Bop::Xor), x, y) => {
                let p = self.extract(x, lo, w);
                let q = self.extract(y, lo, w);
                self.bin(op, p, q)
            }
            // the borrow of a subtraction
            Node::Bin(Bop::Sub, x, y) if w == 1 && lo == wa - 1 && self.is_ext(x, y, wa, false) => self.ult(x, y),
            Node::Bin(Bop::Sub, x, y) if w == 1 && lo == wa - 1 && self.is_ext(x, y, wa, true) => self.slt(x, y),
            Node::Bin(op @ (Bop::Add | Bop::Sub), x, y) if lo == 0 => {
                let p = self.extract(x, 0, w);
                let q = self.extract(y, 0, w);
                self.bin(op, p, q)
            }
            Node::Ite(c, x, y) => {
                if self.as_const(x).is_some() || self.as_const(y).is_some() || wa <= 128 {
                    let p = self.extract(x, lo, w);
                    let q = self.extract(y, lo, w);
                    self.ite(c, p, q)
                } else {
                    self.intern(Node::Extract(a, lo), w)
                }
            }
            _ => self.intern(Node::Extract(a, lo), w),
        }
    }

    pub fn concat(&mut self, h: T, l: T) -> T {
        let wh = self.w(h);
        let wl = self.w(l);
        if wh == 0 {
            return l;
        }
        if wl == 0 {
            return h;
        }
        let w = wh + wl;
        if let (Some(a), Some(b)) = (self.as_const(h), self.as_const(l)) {
            let r = Bv::concat(a, b, wh, wl);
            return self.con_bv(r, w);
        }
        if self.as_const(h).map_or(false, |c| c.is_zero()) {
            return self.zext(l, w);
        }
        if let Node::ZExt(x) = self.node(h) {
            let x = *x;
            let c = self.concat(x, l);
            return self.zext(c, w);
        }
        // adjacent extracts
        if let (Node::Extract(x, l1), Node::Extract(y, l2)) = (self.node(h).clone(), self.node(l).clone()) {
            if x == y && l1 == l2 + wl {
                return self.extract(x, l2, w);
            }
        }
        if let Node::Extract(x, l1) = self.node(h).clone() {
            if x == l && false {
                let _ = l1;
            }
            // h is the extract directly above a whole-term low part is impossible (widths)
            if let Node::Concat(m, ll) = self.node(l).clone() {
                if let Node::Extract(y, l2) = self.node(m).clone() {
                    if x == y && l1 == l2 + self.w(m) {
                        let wm = self.w(m);
                        let e = self.extract(x, l2, wm + wh);
                        return self.concat(e, ll);
                    }
                }
            }
        }
        // left-nested concats are re-associated to the right: (a.b).c => a.(b.c)
        if let Node::Concat(a, b) = self.node(h).clone() {
            let bl = self.concat(b, l);
            return self.concat(a, bl);
        }
        self.intern(Node::Concat(h, l), w)
    }

    pub fn zext(&mut self, a: T, w: u32) -> T {
        let wa = self.w(a);
        if w == wa {
            return a;
        }
        debug_assert!(w > wa);
        match self.node(a).clone() {
            Node::Const(b) => {
                let r = b.zext(wa, w);
                self.con_bv(r, w)
            }
            Node::ZExt(x) => self.zext(x, w),
            Node::Ite(c, x, y) if wa > 1 && self.as_const(x).is_some() && self.const_leaves(y, 3) => {
                let p = self.zext(x, w);
                let q = self.zext(y, w);
                self.ite(c, p, q)
            }
            Node::Ite(c, y, x) if wa > 1 && self.as_const(x).is_some() && self.const_leaves(y, 3) => {
                let p = self.zext(y, w);
                let q = self.zext(x, w);
                self.ite(c, p, q)
            }
            _ => {
                if wa == 0 {
                    return self.con(0, w);
                }
                self.intern(Node::ZExt(a), w)
            }
        }
    }

    pub fn sext(&mut self, a: T, w: u32) -> T {
        let wa = self.w(a);
        if w == wa {
            return a;
        }
        match self.node(a).clone() {
            Node::Const(b) => {
                let r = b.sext(wa, w);
                self.con_bv(r, w)
            }
            Node::SExt(x) => self.sext(x, w),
            Node::ZExt(x) => self.zext(x, w),
            Node::Ite(c, x, y) if wa > 1 && self.const_leaves(x, 3) && self.const_leaves(y, 3) => {
                let p = self.sext(x, w);
                let q = self.sext(y, w);
                self.ite(c, p, q)
            }
            _ => {
                if wa <= 128 && self.range(a).1 < (1u128 << (wa - 1)) {
                    return self.zext(a, w);
                }
                self.intern(Node::SExt(a), w)
            }
        }
    }

    pub fn trunc(&mut self, a: T, w: u32) -> T {
        self.extract(a, 0, w)
    }

    fn is_ext(&self, x: T, y: T, w: u32, signed: bool) -> bool {
        let f = |t: T| match self.node(t) {
            Node::ZExt(a) => self.w(*a) < w,
            Node::SExt(a) => signed && self.w(*a) < w,
            _ => false,
        };
        f(x) && f(y)
    }
    /// A nest of conditionals of constants.
    fn const_leaves(&self, t: T, depth: u32) -> bool {
        match self.node(t) {
            Node::Const(_) => true,
            Node::Ite(_, a, b) if depth > 0 => self.const_leaves(*a, depth - 1) && self.const_leaves(*b, depth - 1),
            _ => false,
        }
    }
    pub fn ite(&mut self, c: T, a: T, b: T) -> T {
        if a == b {
            return a;
        }
        if let Some(v) = self.as_u128(c) {
            return if v == 1 { a } else { b };
        }
        if let Node::Not(x) = self.node(c) {
            let x = *x;
            return self.ite(x, b, a);
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if w == 1 {
            match (self.as_u128(a), self.as_u128(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Bop::Or, c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.bin(Bop::And, n, b);
                }
                (None, Some(0)) => return self.bin(Bop::And, c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.bin(Bop::Or, n, a);
                }
                _ => {}
            }
        }
        if let Node::Ite(c2, x, _) = self.node(a).clone() {
            if c2 == c {
                return self.ite(c, x, b);
            }
        }
        if let Node::Ite(c2, _, y) = self.node(b).clone() {
            if c2 == c {
                return self.ite(c, a, y);
            }
        }
        // zext(c) form
        if w > 1 {
            if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
                if y.is_zero() && *x == Bv::from_u128(1, w) {
                    return self.zext(c, w);
                }
                if x.is_zero() && *y == Bv::from_u128(1, w) {
                    let n = self.not(c);
                    return self.zext(n, w);
                }
                if y.is_zero() && x.is_ones(w) {
                    return self.sext(c, w);
                }
            }
        }
        self.intern(Node::Ite(c, a, b), w)
    }

    pub fn eq(&mut self, a: T, b: T) -> T {
        if a == b {
            return self.tru();
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (a, b) = if self.as_const(a).is_some() || (self.as_const(b).is_none() && a > b) { (b, a) } else { (a, b) };
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            let r = x == y;
            return self.con(r as u128, 1);
        }
        if w <= 128 {
            let (al, ah) = self.range(a);
            let (bl, bh) = self.range(b);
            if ah < bl || bh < al {
                return self.fls();
            }
        }
        if w == 1 {
            match self.as_u128(b) {
                Some(1) => return a,
                Some(0) => return self.not(a),
                _ => {
                    let x = self.bin(Bop::Xor, a, b);
                    return self.not(x);
                }
            }
        }
        if let Some(c) = self.as_const(b).cloned() {
            match self.node(a).clone() {
                Node::ZExt(x) => {
                    let wx = self.w(x);
                    let low = c.extract(0, w, wx);
                    if low.zext(wx, w) == c {
                        let k = self.con_bv(low, wx);
                        return self.eq(x, k);
                    }
                    return self.fls();
                }
                Node::SExt(x) => {
                    let wx = self.w(x);
                    let low = c.extract(0, w, wx);
                    if low.sext(wx, w) == c {
                        let k = self.con_bv(low, wx);
                        return self.eq(x, k);
                    }
                    return self.fls();
                }
                Node::Concat(h, l) => {
                    let wl = self.w(l);
                    let cl = c.extract(0, w, wl);
                    let ch = c.extract(wl, w, w - wl);
                    let kl = self.con_bv(cl, wl);
                    let kh = self.con_bv(ch, w - wl);
                    let e1 = self.eq(h, kh);
                    let e2 = self.eq(l, kl);
                    return self.bin(Bop::And, e1, e2);
                }
                Node::Bin(Bop::Add, x, y) => {
                    if let Some(k) = self.as_const(y) {
                        let r = c.sub(k, w);
                        let r = self.con_bv(r, w);
                        return self.eq(x, r);
                    }
                }
                Node::Bin(Bop::Sub, x, y) => {
                    if c.is_zero() {
                        return self.eq(x, y);
                    }
                    if let Some(k) = self.as_const(x) {
                        let r = k.sub(&c, w);
                        let r = self.con_bv(r, w);
                        return self.eq(y, r);
                    }
                }
                Node::Bin(Bop::Xor, x, y) if c.is_zero() => return self.eq(x, y),
                Node::Bin(Bop::Or, x, y) if c.is_zero() => {
                    let e1 = self.eq(x, b);
                    let e2 = self.eq(y, b);
                    return self.bin(Bop::And, e1, e2);
                }
                Node::Not(x) => {
                    let r = c.not(w);
                    let r = self.con_bv(r, w);
                    return self.eq(x, r);
                }
                Node::Ite(cc, x, y) => {
                    if self.as_const(x).is_some() || self.as_const(y).is_some() {
                        let e1 = self.eq(x, b);
                        let e2 = self.eq(y, b);
                        return self.ite(cc, e1, e2);
                    }
                }
                _ => {}
            }
        } else {
            // concat = concat with equal split
            if let (Node::Concat(h1, l1), Node::Concat(h2, l2)) = (self.node(a).clone(), self.node(b).clone()) {
                if self.w(l1) == self.w(l2) {
                    let e1 = self.eq(h1, h2);
                    let e2 = self.eq(l1, l2);
                    return self.bin(Bop::And, e1, e2);
                }
            }
            if let (Node::ZExt(x), Node::ZExt(y)) = (self.node(a).clone(), self.node(b).clone()) {
                if self.w(x) == self.w(y) {
                    return self.eq(x, y);
                }
            }
        }
        self.intern(Node::Eq(a, b), 1)
    }

    pub fn ne(&mut self, a: T, b: T) -> T {
        let e = self.eq(a, b);
        self.not(e)
    }

    pub fn ult(&mut self, a: T, b: T) -> T {
        if a == b {
            return self.fls();
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            let r = x.ult(y);
            return self.con(r as u128, 1);
        }
        if w <= 128 {
            let (al, ah) = self.range(a);
            let (bl, bh) = self.range(b);
            if ah < bl {
                return self.tru();
            }
            if al >= bh {
                return self.fls();
            }
        }
        if w == 1 {
            let n = self.not(a);
            return self.bin(Bop::And, n, b);
        }
        if let Some(c) = self.as_const(b).cloned() {
            if c.is_zero() {
                return self.fls();
            }
            if c == Bv::from_u128(1, w) {
                let z = self.con(0, w);
                return self.eq(a, z);
            }
            if let Node::ZExt(x) = self.node(a) {
                let x = *x;
                let wx = self.w(x);
                let low = c.extract(0, w, wx);
                if low.zext(wx, w) == c {
                    let k = self.con_bv(low, wx);
                    return self.ult(x, k);
                }
                return self.tru();
            }
            // x < 2^(w-1): sign bit clear
            if w <= 128 && c.low128() == 1u128 << (w - 1) {
                let e = self.extract(a, w - 1, 1);
                return self.not(e);
            }
        }
        if let Some(c) = self.as_const(a).cloned() {
            if c.is_zero() {
                return self.ne(b, a);
            }
            if c.is_ones(w) {
                return self.fls();
            }
            if let Node::ZExt(x) = self.node(b) {
                let x = *x;
                let wx = self.w(x);
                let low = c.extract(0, w, wx);
                if low.zext(wx, w) == c {
                    let k = self.con_bv(low, wx);
                    return self.ult(k, x);
                }
                return self.fls();
            }
            if w <= 128 && c.low128() == mask(w - 1) {
                return self.extract(b, w - 1, 1);
            }
        }
        if let (Node::ZExt(x), Node::ZExt(y)) = (self.node(a).clone(), self.node(b).clone()) {
            let (wx, wy) = (self.w(x), self.w(y));
            let m = wx.max(wy);
            if m < w {
                let x = self.zext(x, m);
                let y = self.zext(y, m);
                return self.ult(x, y);
            }
        }
        self.intern(Node::Ult(a, b), 1)
    }

    pub fn ule(&mut self, a: T, b: T) -> T {
        let x = self.ult(b, a);
        self.not(x)
    }

    pub fn slt(&mut self, a: T, b: T) -> T {
        if a == b {
            return self.fls();
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            let r = x.slt(y, w);
            return self.con(r as u128, 1);
        }
        if w <= 128 {
            let half = 1u128 << (w - 1);
            let (_, ah) = self.range(a);
            let (_, bh) = self.range(b);
            if ah < half && bh < half {
                return self.ult(a, b);
            }
        }
        if w == 1 {
            // signed: 1 is -1
            let n = self.not(b);
            return self.bin(Bop::And, a, n);
        }
        if let Some(c) = self.as_const(b).cloned() {
            if c.is_zero() {
                return self.extract(a, w - 1, 1);
            }
            if let Node::SExt(x) = self.node(a) {
                let x = *x;
                let wx = self.w(x);
                let low = c.extract(0, w, wx);
                if low.sext(wx, w) == c {
                    let k = self.con_bv(low, wx);
                    return self.slt(x, k);
                }
                return self.con(!c.bit(w - 1) as u128, 1);
            }
        }
        if let Some(c) = self.as_const(a).cloned() {
            if c.is_ones(w) {
                let e = self.extract(b, w - 1, 1);
                return self.not(e);
            }
            if let Node::SExt(x) = self.node(b) {
                let x = *x;
                let wx = self.w(x);
                let low = c.extract(0, w, wx);
                if low.sext(wx, w) == c {
                    let k = self.con_bv(low, wx);
                    return self.slt(k, x);
                }
                return self.con(c.bit(w - 1) as u128, 1);
            }
        }
        if let (Node::SExt(x), Node::SExt(y)) = (self.node(a).clone(), self.node(b).clone()) {
            let m = self.w(x).max(self.w(y));
            if m < w {
                let x = self.sext(x, m);
                let y = self.sext(y, m);
                return self.slt(x, y);
            }
        }
        self.intern(Node::Slt(a, b), 1)
    }

    pub fn sle(&mut self, a: T, b: T) -> T {
        let x = self.slt(b, a);
        self.not(x)
    }

    pub fn neg(&mut self, a: T) -> T {
        let w = self.w(a);
        let z = self.con(0, w);
        self.bin(Bop::Sub, z, a)
    }

    /// number of leading (or trailing) zeros, as a term of the same width
    pub fn clz(&mut self, a: T, trailing: bool) -> T {
        let w = self.w(a);
        let mut r = self.con(w as u128, w);
        // scan from the far end so that the closest bit wins
        for k in (0..w).rev() {
            let pos = if trailing { k } else { w - 1 - k };
            let b = self.extract(a, pos, 1);
            let v = self.con(k as u128, w);
            r = self.ite(b, v, r);
        }
        r
    }

    pub fn popcnt(&mut self, a: T) -> T {
        let w = self.w(a);
        let mut r = self.con(0, w);
        for k in 0..w {
            let b = self.extract(a, k, 1);
            let b = self.zext(b, w);
            r = self.bin(Bop::Add, r, b);
        }
        r
    }

    pub fn to_string(&self, t: T, depth: u32) -> String {
        if depth == 0 {
            return format!("t{}", t.0);
        }
        let w = self.w(t);
        let d = depth - 1;
        match self.node(t) {
            Node::Const(b) => format!("{}:{}", b.hex(w), w),
            Node::Var(s, k) => format!("{}{}:{}", if *k == 1 { "u" } else { "v" }, s, w),
            Node::Not(a) => format!("~{}", self.to_string(*a, d)),
            Node::Bin(o, a, b) => format!("({:?} {} {})", o, self.to_string(*a, d), self.to_string(*b, d)),
            Node::Eq(a, b) => format!("(= {} {})", self.to_string(*a, d), self.to_string(*b, d)),
            Node::Ult(a, b) => format!("(u< {} {})", self.to_string(*a, d), self.to_string(*b, d)),
            Node::Slt(a, b) => format!("(s< {} {})", self.to_string(*a, d), self.to_string(*b, d)),
            Node::Ite(a, b, c) => {
                format!("(ite {} {} {})", self.to_string(*a, d), self.to_string(*b, d), self.to_string(*c, d))
            }
            Node::Concat(a, b) => format!("({} . {})", self.to_string(*a, d), self.to_string(*b, d)),
            Node::Extract(a, l) => format!("{}[{}:{}]", self.to_string(*a, d), l + w - 1, l),
            Node::ZExt(a) => format!("zx{}({})", w, self.to_string(*a, d)),
            Node::SExt(a) => format!("sx{}({})", w, self.to_string(*a, d)),
            Node::MulAtom(a, b) => format!("(mul {} {})", self.to_string(*a, d), self.to_string(*b, d)),
        }
    }
}

pub fn eval_bin(op: Bop, x: &Bv, y: &Bv, w: u32) -> Bv {
    match op {
        Bop::And => x.and(y, w),
        Bop::Or => x.or(y, w),
        Bop::Xor => x.xor(y, w),
        Bop::Add => x.add(y, w),
        Bop::Sub => x.sub(y, w),
        Bop::Mul => x.mul(y, w),
        Bop::UDiv => x.udivrem(y, w).0,
        Bop::URem => x.udivrem(y, w).1,
        Bop::SDiv => {
            let (sx, sy) = (x.bit(w - 1), y.bit(w - 1));
            let ax = if sx { x.neg(w) } else { x.clone() };
            let ay = if sy { y.neg(w) } else { y.clone() };
            let q = ax.udivrem(&ay, w).0;
            if sx != sy {
                q.neg(w)
            } else {
                q
            }
        }
        Bop::SRem => {
            let (sx, sy) = (x.bit(w - 1), y.bit(w - 1));
            let ax = if sx { x.neg(w) } else { x.clone() };
            let ay = if sy { y.neg(w) } else { y.clone() };
            let r = ax.udivrem(&ay, w).1;
            if sx {
                r.neg(w)
            } else {
                r
            }
        }
        Bop::Shl => x.shl_n(y.amount(), w),
        Bop::LShr => x.lshr_n(y.amount(), w),
        Bop::AShr => x.ashr_n(y.amount(), w),
    }
}

/// An assignment of values to variables.
#[derive(Clone, Default, Debug)]
pub struct Model {
    pub vals: FxMap<(u32, u8), Bv>,
}

pub struct Evaluator {
    memo: Vec<Option<Bv>>,
    touched: Vec<u32>,
    map: Option<FxMap<u32, Bv>>,
}

impl Evaluator {
    pub fn new() -> Evaluator {
        Evaluator { memo: Vec::new(), touched: Vec::new(), map: None }
    }
    /// For a few evaluations in a large pool.
    pub fn sparse() -> Evaluator {
        Evaluator { memo: Vec::new(), touched: Vec::new(), map: Some(FxMap::default()) }
    }
    pub fn reset(&mut self) {
        for t in self.touched.drain(..) {
            self.memo[t as usize] = None;
        }
    }
    pub fn clear(&mut self) {
        self.memo.clear();
        self.touched.clear();
    }
    pub fn eval(&mut self, p: &Pool, m: &Model, t: T) -> Bv {
        match &self.map {
            Some(m) => {
                if let Some(v) = m.get(&t.0) {
                    return v.clone();
                }
            }
            None => {
                if self.memo.len() < p.info.len() {
                    self.memo.resize(p.info.len(), None);
                }
                if let Some(v) = &self.memo[t.0 as usize] {
                    return v.clone();
                }
            }
        }
        let w = p.w(t);
        let r = match p.node(t) {
            Node::Const(b) => b.clone(),
            Node::Var(s, k) => m.vals.get(&(*s, *k)).cloned().unwrap_or_else(|| Bv::zero(w)),
            Node::Not(a) => self.eval(p, m, *a).not(w),
            Node::Bin(o, a, b) => {
                let x = self.eval(p, m, *a);
                let y = self.eval(p, m, *b);
                eval_bin(*o, &x, &y, w)
            }
            Node::Eq(a, b) => {
                let x = self.eval(p, m, *a);
                let y = self.eval(p, m, *b);
                Bv::S((x == y) as u128)
            }
            Node::Ult(a, b) => {
                let x = self.eval(p, m, *a);
                let y = self.eval(p, m, *b);
                Bv::S(x.ult(&y) as u128)
            }
            Node::Slt(a, b) => {
                let x = self.eval(p, m, *a);
                let y = self.eval(p, m, *b);
                Bv::S(x.slt(&y, p.w(*a)) as u128)
            }
            Node::Ite(c, a, b) => {
                if self.eval(p, m, *c) == Bv::S(1) {
                    self.eval(p, m, *a)
                } else {
                    self.eval(p, m, *b)
                }
            }
            Node::Concat(a, b) => {
                let x = self.eval(p, m, *a);
                let y = self.eval(p, m, *b);
                Bv::concat(&x, &y, p.w(*a), p.w(*b))
            }
            Node::Extract(a, lo) => {
                let x = self.eval(p, m, *a);
                x.extract(*lo, p.w(*a), w)
            }
            Node::ZExt(a) => self.eval(p, m, *a).zext(p.w(*a), w),
            Node::SExt(a) => self.eval(p, m, *a).sext(p.w(*a), w),
            Node::MulAtom(a, b) => {
                let h = w / 2;
                let x = self.eval(p, m, *a).zext(h, w);
                let y = self.eval(p, m, *b).zext(h, w);
                x.mul(&y, w)
            }
        };
        match &mut self.map {
            Some(m) => {
                m.insert(t.0, r.clone());
            }
            None => {
                self.memo[t.0 as usize] = Some(r.clone());
                self.touched.push(t.0);
            }
        }
        r
    }
}

pub fn signed(v: u128, w: u32) -> i128 {
    sext128(v, w)
}
