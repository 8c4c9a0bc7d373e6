//! Fixed-width bit-vector constants of any width (two's complement, little endian limbs).
//! Widths up to 128 are kept in a single u128.

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Bv {
    S(u128),
    L(Box<[u64]>),
}

#[inline]
pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}

#[inline]
pub fn sext128(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else if w == 0 {
        0
    } else {
        let s = 128 - w;
        ((v << s) as i128) >> s
    }
}

fn limbs(w: u32) -> usize {
    ((w + 63) / 64) as usize
}

fn norm(mut d: Vec<u64>, w: u32) -> Bv {
    d.resize(limbs(w), 0);
    let r = w % 64;
    if r != 0 {
        let n = d.len();
        d[n - 1] &= (1u64 << r) - 1;
    }
    if w <= 128 {
        let lo = *d.first().unwrap_or(&0) as u128;
        let hi = *d.get(1).unwrap_or(&0) as u128;
        Bv::S(lo | (hi << 64))
    } else {
        Bv::L(d.into_boxed_slice())
    }
}

impl Bv {
    pub fn zero(w: u32) -> Bv {
        if w <= 128 {
            Bv::S(0)
        } else {
            Bv::L(vec![0; limbs(w)].into_boxed_slice())
        }
    }
    pub fn from_u128(v: u128, w: u32) -> Bv {
        if w <= 128 {
            Bv::S(v & mask(w))
        } else {
            norm(vec![v as u64, (v >> 64) as u64], w)
        }
    }
    pub fn from_i128(v: i128, w: u32) -> Bv {
        if w <= 128 {
            Bv::S((v as u128) & mask(w))
        } else {
            let f = if v < 0 { u64::MAX } else { 0 };
            let mut d = vec![f; limbs(w)];
            d[0] = v as u64;
            d[1] = ((v as u128) >> 64) as u64;
            norm(d, w)
        }
    }
    pub fn to_limbs(&self, w: u32) -> Vec<u64> {
        match self {
            Bv::S(v) => {
                let mut d = vec![*v as u64, (*v >> 64) as u64];
                d.truncate(limbs(w).max(1));
                d
            }
            Bv::L(d) => d.to_vec(),
        }
    }
    pub fn from_limbs(d: Vec<u64>, w: u32) -> Bv {
        norm(d, w)
    }
    pub fn is_zero(&self) -> bool {
        match self {
            Bv::S(v) => *v == 0,
            Bv::L(d) => d.iter().all(|x| *x == 0),
        }
    }
    pub fn low128(&self) -> u128 {
        match self {
            Bv::S(v) => *v,
            Bv::L(d) => d[0] as u128 | ((d[1] as u128) << 64),
        }
    }
    pub fn bit(&self, i: u32) -> bool {
        match self {
            Bv::S(v) => i < 128 && (v >> i) & 1 == 1,
            Bv::L(d) => {
                let k = (i / 64) as usize;
                k < d.len() && (d[k] >> (i % 64)) & 1 == 1
            }
        }
    }
    pub fn is_ones(&self, w: u32) -> bool {
        self.not(w).is_zero()
    }
    pub fn not(&self, w: u32) -> Bv {
        match self {
            Bv::S(v) => Bv::S(!v & mask(w)),
            Bv::L(d) => norm(d.iter().map(|x| !x).collect(), w),
        }
    }
    fn zip(&self, o: &Bv, w: u32, f: impl Fn(u64, u64) -> u64) -> Bv {
        let a = self.to_limbs(w);
        let b = o.to_limbs(w);
        norm(a.iter().zip(b.iter()).map(|(x, y)| f(*x, *y)).collect(), w)
    }
    pub fn and(&self, o: &Bv, w: u32) -> Bv {
        match (self, o) {
            (Bv::S(a), Bv::S(b)) => Bv::S(a & b),
            _ => self.zip(o, w, |a, b| a & b),
        }
    }
    pub fn or(&self, o: &Bv, w: u32) -> Bv {
        match (self, o) {
            (Bv::S(a), Bv::S(b)) => Bv::S(a | b),
            _ => self.zip(o, w, |a, b| a | b),
        }
    }
    pub fn xor(&self, o: &Bv, w: u32) -> Bv {
        match (self, o) {
            (Bv::S(a), Bv::S(b)) => Bv::S(a ^ b),
            _ => self.zip(o, w, |a, b| a ^ b),
        }
    }
    pub fn add(&self, o: &Bv, w: u32) -> Bv {
        match (self, o) {
            (Bv::S(a), Bv::S(b)) => Bv::S(a.wrapping_add(*b) & mask(w)),
            _ => {
                let a = self.to_limbs(w);
                let b = o.to_limbs(w);
                let mut c = 0u128;
                let mut r = Vec::with_capacity(a.len());
                for i in 0..a.len() {
                    c += a[i] as u128 + b[i] as u128;
                    r.push(c as u64);
                    c >>= 64;
                }
                norm(r, w)
            }
        }
    }
    pub fn neg(&self, w: u32) -> Bv {
        self.not(w).add(&Bv::from_u128(1, w), w)
    }
    pub fn sub(&self, o: &Bv, w: u32) -> Bv {
        match (self, o) {
            (Bv::S(a), Bv::S(b)) => Bv::S(a.wrapping_sub(*b) & mask(w)),
            _ => self.add(&o.neg(w), w),
        }
    }
    pub fn mul(&self, o: &Bv, w: u32) -> Bv {
        match (self, o) {
            (Bv::S(a), Bv::S(b)) => Bv::S(a.wrapping_mul(*b) & mask(w)),
            _ => {
                let a = self.to_limbs(w);
                let b = o.to_limbs(w);
                let n = a.len();
                let mut r = vec![0u64; n];
                for i in 0..n {
                    let mut c = 0u128;
                    for j in 0..n - i {
                        c += a[i] as u128 * b[j] as u128 + r[i + j] as u128;
                        r[i + j] = c as u64;
                        c >>= 64;
                    }
                }
                norm(r, w)
            }
        }
    }
    pub fn ult(&self, o: &Bv) -> bool {
        match (self, o) {
            (Bv::S(a), Bv::S(b)) => a < b,
            (Bv::L(a), Bv::L(b)) => {
                for i in (0..a.len()).rev() {
                    if a[i] != b[i] {
                        return a[i] < b[i];
                    }
                }
                false
            }
            _ => panic!("width mismatch"),
        }
    }
    pub fn slt(&self, o: &Bv, w: u32) -> bool {
        let sa = self.bit(w - 1);
        let sb = o.bit(w - 1);
        if sa != sb {
            sa
        } else {
            self.ult(o)
        }
    }
    pub fn shl_n(&self, n: u64, w: u32) -> Bv {
        if n >= w as u64 {
            return Bv::zero(w);
        }
        match self {
            Bv::S(a) => Bv::S((a << n) & mask(w)),
            Bv::L(d) => {
                let k = (n / 64) as usize;
                let s = n % 64;
                let mut r = vec![0u64; d.len()];
                for i in k..d.len() {
                    r[i] = d[i - k] << s;
                    if s > 0 && i > k {
                        r[i] |= d[i - k - 1] >> (64 - s);
                    }
                }
                norm(r, w)
            }
        }
    }
    pub fn lshr_n(&self, n: u64, w: u32) -> Bv {
        if n >= w as u64 {
            return Bv::zero(w);
        }
        match self {
            Bv::S(a) => Bv::S(a >> n),
            Bv::L(d) => {
                let k = (n / 64) as usize;
                let s = n % 64;
                let mut r = vec![0u64; d.len()];
                for i in 0..d.len() - k {
                    r[i] = d[i + k] >> s;
                    if s > 0 && i + k + 1 < d.len() {
                        r[i] |= d[i + k + 1] << (64 - s);
                    }
                }
                norm(r, w)
            }
        }
    }
    pub fn ashr_n(&self, n: u64, w: u32) -> Bv {
        if !self.bit(w - 1) {
            return self.lshr_n(n, w);
        }
        if n >= w as u64 {
            return Bv::zero(w).not(w);
        }
        self.not(w).lshr_n(n, w).not(w)
    }
    /// shift amount as a number, saturated
    pub fn amount(&self) -> u64 {
        match self {
            Bv::S(v) => (*v).min(u64::MAX as u128) as u64,
            Bv::L(d) => {
                if d[1..].iter().any(|x| *x != 0) {
                    u64::MAX
                } else {
                    d[0]
                }
            }
        }
    }
    pub fn extract(&self, lo: u32, w_from: u32, w: u32) -> Bv {
        match self {
            Bv::S(v) => Bv::S((v >> lo) & mask(w)),
            Bv::L(_) => {
                let s = self.lshr_n(lo as u64, w_from);
                norm(s.to_limbs(w_from), w)
            }
        }
    }
    pub fn zext(&self, _w0: u32, w: u32) -> Bv {
        if w <= 128 {
            return self.clone();
        }
        norm(self.to_limbs(128.max(_w0)), w)
    }
    pub fn sext(&self, w0: u32, w: u32) -> Bv {
        if self.bit(w0 - 1) {
            // not(zext(not x))
            self.not(w0).zext(w0, w).not(w)
        } else {
            self.zext(w0, w)
        }
    }
    pub fn concat(hi: &Bv, lo: &Bv, wh: u32, wl: u32) -> Bv {
        let w = wh + wl;
        hi.zext(wh, w).shl_n(wl as u64, w).or(&lo.zext(wl, w), w)
    }
    /// unsigned division and remainder with the SMT-LIB convention for zero
    pub fn udivrem(&self, o: &Bv, w: u32) -> (Bv, Bv) {
        if o.is_zero() {
            return (Bv::zero(w).not(w), self.clone());
        }
        match (self, o) {
            (Bv::S(a), Bv::S(b)) => (Bv::S(a / b), Bv::S(a % b)),
            _ => {
                let mut q = Bv::zero(w);
                let mut r = Bv::zero(w);
                let one = Bv::from_u128(1, w);
                for i in (0..w).rev() {
                    let top = r.bit(w - 1);
                    r = r.shl_n(1, w);
                    if self.bit(i) {
                        r = r.or(&one, w);
                    }
                    if top || !r.ult(o) {
                        r = r.sub(o, w);
                        q = q.or(&one.shl_n(i as u64, w), w);
                    }
                }
                (q, r)
            }
        }
    }
    pub fn hex(&self, w: u32) -> String {
        let d = self.to_limbs(w);
        let mut s = String::new();
        for x in d.iter().rev() {
            s.push_str(&format!("{:016x}", x));
        }
        let t = s.trim_start_matches('0');
        if t.is_empty() {
            "0".to_string()
        } else {
            t.to_string()
        }
    }
    /// binary digits, most significant first
    pub fn bits(&self, w: u32) -> String {
        (0..w).rev().map(|i| if self.bit(i) { '1' } else { '0' }).collect()
    }
}
