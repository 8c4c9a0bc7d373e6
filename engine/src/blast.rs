//! Bit-blasting of terms into a hash-consed and-inverter graph with xor, majority and
//! multiplexer nodes, decided by the CDCL solver.

use crate::bv::{mask, Bv};
use crate::sat::{Lit, Sat, SatRes};
use crate::term::{Bop, Evaluator, FxMap, Model, Node, Pool, T};
use crate::z3::{Res, Stats};
use std::rc::Rc;
use std::time::{Duration, Instant};

const F: Lit = 0;
const TR: Lit = 1;

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
enum N {
    Const,
    Input,
    And(Lit, Lit),
    Xor(Lit, Lit),
    Maj(Lit, Lit, Lit),
    Mux(Lit, Lit, Lit),
}

pub struct Blaster {
    nodes: Vec<N>,
    map: FxMap<N, Lit>,
    bits: FxMap<T, Rc<[Lit]>>,
    sat: Sat,
    coded: Vec<bool>,
    cstamp: Vec<u32>,
    stamp: u32,
    /// side conditions attached to a node: asserted facts and the nodes they mention
    side: FxMap<u32, Vec<Lit>>,
    atoms: Vec<(T, bool)>,
    atom_of: FxMap<T, usize>,
    divs: FxMap<(Rc<[Lit]>, Rc<[Lit]>), (Rc<[Lit]>, Rc<[Lit]>)>,
    pub stats: Stats,
    pub timeout_ms: u32,
    pub exact_mul: u32,
}

fn neg(l: Lit) -> Lit {
    l ^ 1
}

impl Blaster {
    pub fn new(timeout_ms: u32, exact_mul: u32) -> Blaster {
        let mut b = Blaster {
            nodes: vec![N::Const],
            map: FxMap::default(),
            bits: FxMap::default(),
            sat: Sat::new(),
            coded: vec![true],
            cstamp: vec![0],
            stamp: 0,
            side: FxMap::default(),
            atoms: vec![],
            atom_of: FxMap::default(),
            divs: FxMap::default(),
            stats: Stats::default(),
            timeout_ms,
            exact_mul,
        };
        b.sat.ensure_vars(1);
        b.sat.add_clause(&[1]);
        b
    }

    pub fn size(&self) -> usize {
        self.nodes.len()
    }

    fn node(&mut self, n: N) -> Lit {
        if n != N::Input {
            if let Some(l) = self.map.get(&n) {
                return *l;
            }
        }
        let l = 2 * self.nodes.len() as u32;
        self.nodes.push(n);
        self.coded.push(false);
        self.cstamp.push(0);
        if n != N::Input {
            self.map.insert(n, l);
        }
        l
    }
    fn input(&mut self) -> Lit {
        self.node(N::Input)
    }
    fn inputs(&mut self, w: u32) -> Vec<Lit> {
        (0..w).map(|_| self.input()).collect()
    }

    fn and(&mut self, a: Lit, b: Lit) -> Lit {
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        if a == F {
            return F;
        }
        if a == TR || a == b {
            return b;
        }
        if a == neg(b) {
            return F;
        }
        // one level look-down
        for (x, y) in [(a, b), (b, a)] {
            if let N::And(p, q) = self.nodes[(y >> 1) as usize] {
                if y & 1 == 0 {
                    if x == p || x == q {
                        return y;
                    }
                    if x == neg(p) || x == neg(q) {
                        return F;
                    }
                } else {
                    if x == neg(p) || x == neg(q) {
                        return x;
                    }
                    if x == p {
                        return self.and(x, neg(q));
                    }
                    if x == q {
                        return self.and(x, neg(p));
                    }
                }
            }
        }
        for (x, y) in [(a, b), (b, a)] {
            if let N::Xor(p, q) = self.nodes[(y >> 1) as usize] {
                // x & (x ^ q) = x & !q
                let o = if x >> 1 == p >> 1 {
                    q
                } else if x >> 1 == q >> 1 {
                    p
                } else {
                    continue;
                };
                // y = x' ^ o ^ sign with x = x' ^ sx
                return self.and(x, neg(o ^ (x & 1) ^ (y & 1)));
            }
        }
        if let (N::And(p, q), N::And(r, s)) = (self.nodes[(a >> 1) as usize], self.nodes[(b >> 1) as usize]) {
            match (a & 1, b & 1) {
                (0, 0) => {
                    if p == neg(r) || p == neg(s) || q == neg(r) || q == neg(s) {
                        return F;
                    }
                }
                (0, 1) => {
                    if p == neg(r) || p == neg(s) || q == neg(r) || q == neg(s) {
                        return a;
                    }
                }
                (1, 0) => {
                    if p == neg(r) || p == neg(s) || q == neg(r) || q == neg(s) {
                        return b;
                    }
                }
                _ => {
                    // !(p&q) & !(r&s): with p = !r, q = s this is !q
                    if (p == neg(r) && q == s) || (p == neg(s) && q == r) {
                        return neg(q);
                    }
                    if (q == neg(r) && p == s) || (q == neg(s) && p == r) {
                        return neg(p);
                    }
                }
            }
        }
        self.node(N::And(a, b))
    }
    fn or(&mut self, a: Lit, b: Lit) -> Lit {
        neg(self.and(neg(a), neg(b)))
    }
    fn xor(&mut self, a: Lit, b: Lit) -> Lit {
        let s = (a ^ b) & 1;
        let (a, b) = (a & !1, b & !1);
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        if a == b {
            return F ^ s;
        }
        if a == 0 {
            return b ^ s;
        }
        for (x, y) in [(a, b), (b, a)] {
            if let N::Xor(p, q) = self.nodes[(y >> 1) as usize] {
                if x == p {
                    return q ^ s;
                }
                if x == q {
                    return p ^ s;
                }
            }
        }
        self.node(N::Xor(a, b)) ^ s
    }
    fn mux(&mut self, c: Lit, a: Lit, b: Lit) -> Lit {
        if c & 1 == 1 {
            return self.mux(neg(c), b, a);
        }
        if c == F {
            return b;
        }
        if a == b {
            return a;
        }
        if a == neg(b) {
            return self.xor(c, b);
        }
        if a == TR || a == c {
            return self.or(c, b);
        }
        if a == F || a == neg(c) {
            return self.and(neg(c), b);
        }
        if b == TR || b == neg(c) {
            return self.or(neg(c), a);
        }
        if b == F || b == c {
            return self.and(c, a);
        }
        if let N::Mux(d, x, y) = self.nodes[(a >> 1) as usize] {
            let s = a & 1;
            if d == c {
                return self.mux(c, x ^ s, b);
            }
            let _ = y;
        }
        if let N::Mux(d, _, y) = self.nodes[(b >> 1) as usize] {
            let s = b & 1;
            if d == c {
                return self.mux(c, a, y ^ s);
            }
        }
        // normalise the polarity of the first branch
        if a & 1 == 1 {
            return neg(self.node(N::Mux(c, neg(a), neg(b))));
        }
        self.node(N::Mux(c, a, b))
    }
    fn maj(&mut self, a: Lit, b: Lit, c: Lit) -> Lit {
        let mut v = [a, b, c];
        v.sort();
        let [a, b, c] = v;
        if a == b {
            return a;
        }
        if b == c {
            return b;
        }
        if a == neg(b) {
            return c;
        }
        if b == neg(c) {
            return a;
        }
        if a == F {
            return self.and(b, c);
        }
        if a == TR {
            return self.or(b, c);
        }
        // maj(x, y, x ^ y) = x | y, maj(x, y, !(x ^ y)) = x & y
        for (x, y, z) in [(a, b, c), (a, c, b), (b, c, a)] {
            if let N::Xor(p, q) = self.nodes[(z >> 1) as usize] {
                if (p >> 1 == x >> 1 && q >> 1 == y >> 1) || (p >> 1 == y >> 1 && q >> 1 == x >> 1) {
                    let s = (x ^ y ^ z) & 1;
                    return if s == 0 { self.or(x, y) } else { self.and(x, y) };
                }
            }
        }
        // self-dual: at most one negation
        let n = (a & 1) + (b & 1) + (c & 1);
        if n >= 2 {
            return neg(self.maj(neg(a), neg(b), neg(c)));
        }
        self.node(N::Maj(a, b, c))
    }

    // ---------------------------------------------------------------- vectors

    fn add(&mut self, a: &[Lit], b: &[Lit], mut c: Lit) -> (Vec<Lit>, Lit) {
        let mut r = Vec::with_capacity(a.len());
        for i in 0..a.len() {
            let x = self.xor(a[i], b[i]);
            r.push(self.xor(x, c));
            c = self.maj(a[i], b[i], c);
        }
        (r, c)
    }
    fn carry(&mut self, a: &[Lit], b: &[Lit], mut c: Lit) -> Lit {
        for i in 0..a.len() {
            c = self.maj(a[i], b[i], c);
        }
        c
    }
    fn notv(a: &[Lit]) -> Vec<Lit> {
        a.iter().map(|x| neg(*x)).collect()
    }
    fn sub(&mut self, a: &[Lit], b: &[Lit]) -> Vec<Lit> {
        let nb = Self::notv(b);
        self.add(a, &nb, TR).0
    }
    fn negv(&mut self, a: &[Lit]) -> Vec<Lit> {
        let z = vec![F; a.len()];
        self.sub(&z, a)
    }
    /// a < b unsigned
    fn ult(&mut self, a: &[Lit], b: &[Lit]) -> Lit {
        let nb = Self::notv(b);
        neg(self.carry(a, &nb, TR))
    }
    fn slt(&mut self, a: &[Lit], b: &[Lit]) -> Lit {
        let mut x = a.to_vec();
        let mut y = b.to_vec();
        let n = x.len() - 1;
        x[n] = neg(x[n]);
        y[n] = neg(y[n]);
        self.ult(&x, &y)
    }
    fn eqv(&mut self, a: &[Lit], b: &[Lit]) -> Lit {
        let mut v: Vec<Lit> = (0..a.len()).map(|i| neg(self.xor(a[i], b[i]))).collect();
        self.andv(&mut v)
    }
    fn andv(&mut self, v: &mut Vec<Lit>) -> Lit {
        v.sort();
        v.dedup();
        if v.is_empty() {
            return TR;
        }
        // chain keeps prefixes shareable
        let mut r = v[0];
        for x in &v[1..] {
            r = self.and(r, *x);
            if r == F {
                return F;
            }
        }
        r
    }
    fn muxv(&mut self, c: Lit, a: &[Lit], b: &[Lit]) -> Vec<Lit> {
        (0..a.len()).map(|i| self.mux(c, a[i], b[i])).collect()
    }
    fn mul(&mut self, a: &[Lit], b: &[Lit], w: usize) -> Vec<Lit> {
        // use the operand with fewer non-constant or non-zero bits as multiplier
        let weight = |v: &[Lit]| v.iter().filter(|x| **x != F).count();
        let (wa, wb) = (weight(a), weight(b));
        let (a, b) = if (wb, b) <= (wa, a) { (a, b) } else { (b, a) };
        let mut acc = vec![F; w];
        for i in 0..b.len().min(w) {
            if b[i] == F {
                continue;
            }
            let row: Vec<Lit> = (0..w - i).map(|k| if k < a.len() { self.and(a[k], b[i]) } else { F }).collect();
            let (s, _) = self.add(&acc[i..], &row, F);
            acc.splice(i.., s);
        }
        acc
    }
    fn divrem(&mut self, a: &[Lit], b: &[Lit]) -> (Rc<[Lit]>, Rc<[Lit]>) {
        let key: (Rc<[Lit]>, Rc<[Lit]>) = (a.into(), b.into());
        if let Some(r) = self.divs.get(&key) {
            return r.clone();
        }
        let w = a.len();
        // significant width of the dividend bounds the quotient; of both bounds the remainder
        let sig = |v: &[Lit]| v.iter().rposition(|x| *x != F).map(|x| x + 1).unwrap_or(0);
        let wa = sig(a);
        let wb = sig(b);
        let lowb = b.iter().rposition(|x| *x == TR).unwrap_or(0);
        let wq = if b.iter().any(|x| *x == TR) { wa.saturating_sub(lowb) } else { wa };
        let wr = wa.min(wb);
        let mut q = self.inputs(wq as u32);
        let mut r = self.inputs(wr as u32);
        let mut z = b.to_vec();
        for x in z.iter_mut() {
            *x = neg(*x);
        }
        let bz = self.andv(&mut z);
        // q * b + r = a without overflow, r < b  (when b != 0)
        let ww = wq + wb + 1;
        let mut p = self.mul(&q, &b[..wb], ww.max(1));
        let mut re = r.clone();
        re.resize(p.len(), F);
        p = self.add(&p, &re, F).0;
        let mut ae = a[..wa].to_vec();
        let n = p.len().max(ae.len());
        p.resize(n, F);
        ae.resize(n, F);
        let e = self.eqv(&p, &ae);
        let mut rr = r.clone();
        let mut bb = b[..wb].to_vec();
        let n = rr.len().max(bb.len());
        rr.resize(n, F);
        bb.resize(n, F);
        let lt = self.ult(&rr, &bb);
        let both = self.and(e, lt);
        let fact = self.or(bz, both);
        for x in q.iter().chain(r.iter()) {
            self.side.entry(x >> 1).or_default().push(fact);
        }
        self.assert_fact(fact);
        q.resize(w, F);
        r.resize(w, F);
        // division by zero: all ones / dividend
        let ones = vec![TR; w];
        let q = self.muxv(bz, &ones, &q);
        let r = self.muxv(bz, a, &r);
        let res: (Rc<[Lit]>, Rc<[Lit]>) = (q.into(), r.into());
        self.divs.insert(key, res.clone());
        res
    }
    fn shift(&mut self, op: Bop, a: &[Lit], s: &[Lit]) -> Vec<Lit> {
        let w = a.len();
        let fill = if op == Bop::AShr { a[w - 1] } else { F };
        let mut r = a.to_vec();
        let mut k = 0;
        let mut over = F;
        for i in 0..s.len() {
            if (1usize << k.min(62)) < w {
                let n = 1usize << k;
                let sh: Vec<Lit> = (0..w)
                    .map(|j| {
                        if op == Bop::Shl {
                            if j >= n {
                                r[j - n]
                            } else {
                                F
                            }
                        } else if j + n < w {
                            r[j + n]
                        } else {
                            fill
                        }
                    })
                    .collect();
                r = self.muxv(s[i], &sh, &r);
                k += 1;
            } else {
                over = self.or(over, s[i]);
            }
        }
        let f = vec![fill; w];
        self.muxv(over, &f, &r)
    }

    // ---------------------------------------------------------------- terms

    fn tr(&mut self, p: &Pool, t: T) -> Rc<[Lit]> {
        if let Some(x) = self.bits.get(&t) {
            return x.clone();
        }
        let w = p.w(t) as usize;
        let v: Vec<Lit> = match p.node(t).clone() {
            Node::Const(b) => (0..w).map(|i| b.bit(i as u32) as Lit).collect(),
            Node::Var(..) => self.inputs(w as u32),
            Node::Not(x) => Self::notv(&self.tr(p, x)),
            Node::Bin(op, x, y) => {
                let a = self.tr(p, x);
                let b = self.tr(p, y);
                match op {
                    Bop::And => (0..w).map(|i| self.and(a[i], b[i])).collect(),
                    Bop::Or => (0..w).map(|i| self.or(a[i], b[i])).collect(),
                    Bop::Xor => (0..w).map(|i| self.xor(a[i], b[i])).collect(),
                    Bop::Add => self.add(&a, &b, F).0,
                    Bop::Sub => self.sub(&a, &b),
                    Bop::Mul => self.mul(&a, &b, w),
                    Bop::UDiv => self.divrem(&a, &b).0.to_vec(),
                    Bop::URem => self.divrem(&a, &b).1.to_vec(),
                    Bop::SDiv | Bop::SRem => {
                        let (sa, sb) = (a[w - 1], b[w - 1]);
                        let na = self.negv(&a);
                        let nb = self.negv(&b);
                        let ua = self.muxv(sa, &na, &a);
                        let ub = self.muxv(sb, &nb, &b);
                        let (q, r) = self.divrem(&ua, &ub);
                        if op == Bop::SDiv {
                            let nq = self.negv(&q);
                            let s = self.xor(sa, sb);
                            self.muxv(s, &nq, &q)
                        } else {
                            let nr = self.negv(&r);
                            self.muxv(sa, &nr, &r)
                        }
                    }
                    Bop::Shl | Bop::LShr | Bop::AShr => self.shift(op, &a, &b),
                }
            }
            Node::Eq(x, y) => {
                let a = self.tr(p, x);
                let b = self.tr(p, y);
                vec![self.eqv(&a, &b)]
            }
            Node::Ult(x, y) => {
                let a = self.tr(p, x);
                let b = self.tr(p, y);
                vec![self.ult(&a, &b)]
            }
            Node::Slt(x, y) => {
                let a = self.tr(p, x);
                let b = self.tr(p, y);
                vec![self.slt(&a, &b)]
            }
            Node::Ite(c, x, y) => {
                let c = self.tr(p, c)[0];
                let a = self.tr(p, x);
                let b = self.tr(p, y);
                self.muxv(c, &a, &b)
            }
            Node::Concat(x, y) => {
                let hi = self.tr(p, x);
                let mut lo = self.tr(p, y).to_vec();
                lo.extend_from_slice(&hi);
                lo
            }
            Node::Extract(x, lo) => {
                let a = self.tr(p, x);
                a[lo as usize..lo as usize + w].to_vec()
            }
            Node::ZExt(x) => {
                let mut a = self.tr(p, x).to_vec();
                a.resize(w, F);
                a
            }
            Node::SExt(x) => {
                let mut a = self.tr(p, x).to_vec();
                let s = *a.last().unwrap();
                a.resize(w, s);
                a
            }
            Node::MulAtom(x, y) => {
                let a = self.tr(p, x);
                let b = self.tr(p, y);
                let h = w / 2;
                let sig = |v: &[Lit]| v.iter().rposition(|x| *x != F).map(|x| x + 1).unwrap_or(0);
                let isc = |v: &[Lit]| v.iter().all(|x| *x < 2);
                if sig(&a).min(sig(&b)) <= self.exact_mul as usize || isc(&a) || isc(&b) {
                    self.mul(&a, &b, w)
                } else {
                    let v = self.inputs(w as u32);
                    self.atom_of.insert(t, self.atoms.len());
                    self.atoms.push((t, false));
                    self.atom_lemmas(&v, &a, &b, h);
                    v
                }
            }
        };
        debug_assert_eq!(v.len(), w);
        let r: Rc<[Lit]> = v.into();
        self.bits.insert(t, r.clone());
        r
    }

    fn lemma(&mut self, v: &[Lit], l: Lit) {
        if l == TR {
            return;
        }
        for x in v {
            if *x > 1 {
                self.side.entry(x >> 1).or_default().push(l);
            }
        }
        self.assert_fact(l);
    }

    fn assert_fact(&mut self, l: Lit) {
        if l == TR {
            return;
        }
        self.encode_cone(&[l]);
        self.sat.add_clause(&[l]);
    }

    /// Sound facts about v = x * y (operands of width h, v of width 2h).
    fn atom_lemmas(&mut self, v: &[Lit], x: &[Lit], y: &[Lit], h: usize) {
        // asserted once, attached to the lowest bit (every query that mentions any bit of v
        // pulls in the facts of bit 0 through `side` of each bit)
        let zero = vec![F; h];
        let zero2 = vec![F; 2 * h];
        let xz = self.eqv(x, &zero);
        let yz = self.eqv(y, &zero);
        let vz = self.eqv(v, &zero2);
        let o = self.or(xz, yz);
        let mut ls = vec![neg(self.xor(vz, o))];
        let m = Bv::from_u128(mask(h as u32), 2 * h as u32);
        let mm = m.mul(&m, 2 * h as u32);
        let mmb: Vec<Lit> = (0..2 * h).map(|i| mm.bit(i as u32) as Lit).collect();
        ls.push(neg(self.ult(&mmb, v)));
        let (tx, ty) = (x[h - 1], y[h - 1]);
        let hv = self.or(v[2 * h - 1], v[2 * h - 2]);
        let both = self.and(tx, ty);
        ls.push(self.or(neg(both), hv));
        for (q, qz) in [(x, xz), (y, yz)] {
            let lt = self.ult(&v[h..], q);
            ls.push(self.or(qz, lt));
        }
        for (q, r) in [(x, y), (y, x)] {
            let mut one = vec![F; h];
            one[0] = TR;
            let e1 = self.eqv(q, &one);
            let mut zr = r.to_vec();
            zr.resize(2 * h, F);
            let e2 = self.eqv(v, &zr);
            ls.push(self.or(neg(e1), e2));
        }
        let lo = self.and(x[0], y[0]);
        ls.push(neg(self.xor(v[0], lo)));
        for (q, r) in [(tx, y), (ty, x)] {
            let mut s = vec![F; h - 1];
            s.extend_from_slice(r);
            s.push(F);
            let lt = self.ult(v, &s);
            ls.push(self.or(neg(q), neg(lt)));
        }
        let mut all = TR;
        for l in ls {
            self.lemma(&[], l);
            all = self.and(all, l);
        }
        for b in v {
            if *b > 1 {
                self.side.entry(b >> 1).or_default().push(all);
            }
        }
    }

    // ---------------------------------------------------------------- CNF

    /// Adds the defining clauses of everything below `roots`; returns the variables met.
    fn encode_cone(&mut self, roots: &[Lit]) -> Vec<u32> {
        self.sat.ensure_vars(self.nodes.len());
        self.stamp += 1;
        let mut st: Vec<u32> = roots.iter().map(|l| l >> 1).collect();
        let mut cone = vec![];
        while let Some(v) = st.pop() {
            if self.cstamp[v as usize] == self.stamp {
                continue;
            }
            self.cstamp[v as usize] = self.stamp;
            cone.push(v);
            let n = self.nodes[v as usize];
            let o = 2 * v;
            let enc = !self.coded[v as usize];
            self.coded[v as usize] = true;
            match n {
                N::Const => {}
                N::Input => {
                    if let Some(s) = self.side.get(&v) {
                        for l in s {
                            st.push(l >> 1);
                        }
                    }
                }
                N::And(a, b) => {
                    if enc {
                        self.sat.add_clause(&[o ^ 1, a]);
                        self.sat.add_clause(&[o ^ 1, b]);
                        self.sat.add_clause(&[o, a ^ 1, b ^ 1]);
                    }
                    st.push(a >> 1);
                    st.push(b >> 1);
                }
                N::Xor(a, b) => {
                    if enc {
                        self.sat.add_clause(&[o ^ 1, a, b]);
                        self.sat.add_clause(&[o ^ 1, a ^ 1, b ^ 1]);
                        self.sat.add_clause(&[o, a ^ 1, b]);
                        self.sat.add_clause(&[o, a, b ^ 1]);
                    }
                    st.push(a >> 1);
                    st.push(b >> 1);
                }
                N::Maj(a, b, c) => {
                    if enc {
                        self.sat.add_clause(&[o, a ^ 1, b ^ 1]);
                        self.sat.add_clause(&[o, a ^ 1, c ^ 1]);
                        self.sat.add_clause(&[o, b ^ 1, c ^ 1]);
                        self.sat.add_clause(&[o ^ 1, a, b]);
                        self.sat.add_clause(&[o ^ 1, a, c]);
                        self.sat.add_clause(&[o ^ 1, b, c]);
                    }
                    st.push(a >> 1);
                    st.push(b >> 1);
                    st.push(c >> 1);
                }
                N::Mux(c, a, b) => {
                    if enc {
                        self.sat.add_clause(&[o ^ 1, c ^ 1, a]);
                        self.sat.add_clause(&[o, c ^ 1, a ^ 1]);
                        self.sat.add_clause(&[o ^ 1, c, b]);
                        self.sat.add_clause(&[o, c, b ^ 1]);
                        self.sat.add_clause(&[o ^ 1, a, b]);
                        self.sat.add_clause(&[o, a ^ 1, b ^ 1]);
                    }
                    st.push(a >> 1);
                    st.push(b >> 1);
                    st.push(c >> 1);
                }
            }
        }
        cone
    }

    // ---------------------------------------------------------------- queries

    pub fn check(&mut self, p: &Pool, conds: &[T], want_model: bool) -> (Res, Option<Model>) {
        let t0 = Instant::now();
        let r = self.check_inner(p, conds, want_model, t0 + Duration::from_millis(self.timeout_ms as u64));
        let us = t0.elapsed().as_micros() as u64;
        self.stats.queries += 1;
        self.stats.time_us += us;
        self.stats.max_us = self.stats.max_us.max(us);
        match r.0 {
            Res::Sat => self.stats.sat += 1,
            Res::Unsat => self.stats.unsat += 1,
            Res::Unknown => self.stats.unknown += 1,
        }
        r
    }

    fn check_inner(&mut self, p: &Pool, conds: &[T], want_model: bool, deadline: Instant) -> (Res, Option<Model>) {
        let mut assum: Vec<Lit> = vec![];
        for c in conds {
            let l = self.tr(p, *c)[0];
            if l == F {
                return (Res::Unsat, None);
            }
            if l == TR || assum.contains(&l) {
                continue;
            }
            if assum.contains(&neg(l)) {
                return (Res::Unsat, None);
            }
            assum.push(l);
        }
        let mut round = 0;
        loop {
            let cone = self.encode_cone(&assum);
            match self.sat.solve(&assum, &cone, deadline) {
                SatRes::Unsat => return (Res::Unsat, None),
                SatRes::Limit => return (Res::Unknown, None),
                SatRes::Sat => {}
            }
            // term-level cone
            let mut seen: std::collections::HashSet<T> = Default::default();
            let mut st: Vec<T> = conds.to_vec();
            let mut model = Model::default();
            let mut atoms = vec![];
            if !want_model && self.atoms.is_empty() {
                return (Res::Sat, None);
            }
            while let Some(t) = st.pop() {
                if !seen.insert(t) {
                    continue;
                }
                if let Node::Var(s, k) = p.node(t) {
                    let b = self.bits.get(&t).cloned();
                    if let Some(b) = b {
                        model.vals.insert((*s, *k), self.model_bits(&b));
                    }
                }
                if self.atom_of.contains_key(&t) {
                    atoms.push(t);
                }
                crate::z3::kids(p, t, |k| st.push(k));
            }
            if atoms.is_empty() {
                return (Res::Sat, Some(model));
            }
            let mut ev = Evaluator::sparse();
            let mut bad = vec![];
            for t in &atoms {
                let b = self.bits[t].clone();
                let v = self.model_bits(&b);
                let e = ev.eval(p, &model, *t);
                if v != e {
                    bad.push(*t);
                }
            }
            if bad.is_empty() || conds.iter().all(|c| ev.eval(p, &model, *c) == Bv::S(1)) {
                return (Res::Sat, Some(model));
            }
            self.stats.refinements += 1;
            // a consistent model nearby: pin one operand of each product
            if round < 3 {
                let mut cands: Vec<Option<(usize, u32)>> = vec![None];
                if round == 0 {
                    cands.extend([Some((0, 0)), Some((1, 0)), Some((2, 0))]);
                }
                for c in cands {
                    let mut pin = assum.clone();
                    let mut done: FxMap<T, ()> = FxMap::default();
                    for t in &atoms {
                        if let Node::MulAtom(x, y) = p.node(*t).clone() {
                            if done.contains_key(&x) {
                                continue;
                            }
                            let (x, y) = if p.as_const(y).is_some() { (y, x) } else { (x, y) };
                            let yb = self.tr(p, y);
                            let xb = self.tr(p, x);
                            let h = yb.len();
                            let val: Vec<Lit> = match c {
                                None => {
                                    let v = ev.eval(p, &model, y);
                                    (0..h).map(|i| v.bit(i as u32) as Lit).collect()
                                }
                                Some((0, _)) => (0..h).map(|i| (i + 1 == h) as Lit).collect(),
                                Some((1, _)) => (0..h).map(|i| (i + 1 == h || i == 0) as Lit).collect(),
                                _ => (0..h).map(|i| (i + 2 >= h) as Lit).collect(),
                            };
                            done.insert(y, ());
                            let e1 = self.eqv(&yb, &val);
                            let pr = self.mul(&xb, &val, 2 * h);
                            let v = self.bits[t].clone();
                            let e2 = self.eqv(&v, &pr);
                            let l = self.or(neg(e1), e2);
                            self.lemma(&v, l);
                            pin.push(e1);
                        }
                    }
                    if pin.contains(&F) {
                        continue;
                    }
                    let cone = self.encode_cone(&pin);
                    let dl = Instant::now() + Duration::from_millis(2000);
                    if self.sat.solve(&pin, &cone, dl.min(deadline)) == SatRes::Sat {
                        let m2 = self.read_model(p, conds);
                        let mut ev2 = Evaluator::sparse();
                        if conds.iter().all(|c| ev2.eval(p, &m2, *c) == Bv::S(1)) {
                            return (Res::Sat, Some(m2));
                        }
                    }
                }
            }
            round += 1;
            if round > 60 {
                return (Res::Unknown, None);
            }
            for t in bad.iter().take(4) {
                if let Node::MulAtom(x, y) = p.node(*t).clone() {
                    let a = self.tr(p, x);
                    let b = self.tr(p, y);
                    let v = self.bits[t].clone();
                    let h = a.len();
                    if round < 12 {
                        for (q, qb, ob) in [(x, &a, &b), (y, &b, &a)] {
                            let qv = ev.eval(p, &model, q);
                            let cb: Vec<Lit> = (0..h).map(|i| qv.bit(i as u32) as Lit).collect();
                            let e1 = self.eqv(qb, &cb);
                            let pr = self.mul(ob, &cb, 2 * h);
                            let e2 = self.eqv(&v, &pr);
                            let l = self.or(neg(e1), e2);
                            self.lemma(&v, l);
                        }
                    } else {
                        let i = self.atom_of[t];
                        if !self.atoms[i].1 {
                            self.atoms[i].1 = true;
                            let pr = self.mul(&a, &b, 2 * h);
                            let e = self.eqv(&v, &pr);
                            self.lemma(&v, e);
                        }
                    }
                }
            }
        }
    }

    fn read_model(&self, p: &Pool, conds: &[T]) -> Model {
        let mut seen: std::collections::HashSet<T> = Default::default();
        let mut st: Vec<T> = conds.to_vec();
        let mut model = Model::default();
        while let Some(t) = st.pop() {
            if !seen.insert(t) {
                continue;
            }
            if let Node::Var(s, k) = p.node(t) {
                if let Some(b) = self.bits.get(&t) {
                    model.vals.insert((*s, *k), self.model_bits(b));
                }
            }
            crate::z3::kids(p, t, |k| st.push(k));
        }
        model
    }

    fn model_bits(&self, b: &[Lit]) -> Bv {
        let w = b.len();
        let mut limbs = vec![0u64; (w + 63) / 64];
        for (i, l) in b.iter().enumerate() {
            let v = if *l < 2 { *l == 1 } else { self.sat.model(*l) };
            if v {
                limbs[i / 64] |= 1 << (i % 64);
            }
        }
        Bv::from_limbs(limbs, w as u32)
    }

    pub fn sat_stats(&self) -> (u64, u64, u64) {
        (self.sat.conflicts, self.sat.decisions, self.sat.props)
    }
}
