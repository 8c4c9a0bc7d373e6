//! Text and digit conversions.
use crate::gen::*;
use crate::vx::*;
use astro_float_num::{Consts, Error, Radix};

const AUTO: usize = usize::MAX;

fn radix(sh: usize) -> Radix {
    match sh {
        1 => Radix::Bin,
        3 => Radix::Oct,
        _ => Radix::Hex,
    }
}

fn zdigits(d: &[u8], sh: usize) -> Z {
    let mut z = zu(0);
    for x in d {
        z = z.shl(sh).add(zu(*x as u64));
    }
    z
}

fn zdec(d: &[u8]) -> Z {
    let mut z = zu(0);
    for x in d {
        z = z.mul(zu(10)).add(zu(*x as u64));
    }
    z
}

fn pow10(n: usize) -> Z {
    let mut z = zu(1);
    for _ in 0..n {
        z = z.mul(zu(10));
    }
    z
}

/// Digits in a power-of-two radix to a number. mode 0: middle of the exponent range, 1: the limits.
fn from_pow2<const D: usize>(sh: usize, mode: u64) {
    let mut cc = Consts::new().unwrap();
    snap();
    let n = 1 + choose(D as u64) as usize;
    let mut d = [0u8; D];
    for x in d[..n].iter_mut() {
        *x = sym(sh as u32) as u8;
    }
    let d = &d[..n];
    let s = any_sign();
    let p = [W, AUTO, 2 * W, 1][choose(4) as usize];
    let rm = if p == AUTO { RoundingMode::ToEven } else { any_rm() };
    let e = match mode {
        0 => {
            let e = any_exp();
            let es = e as i64 * sh as i64;
            assume((es < EXPONENT_MAX as i64 - 999) & (es > EXPONENT_MIN as i64 + 999));
            e
        }
        1 => EXPONENT_MAX / sh as i32 - [0, 1, 2, -1][choose(if sh == 1 { 3 } else { 4 }) as usize],
        _ => {
            let b = EXPONENT_MIN / sh as i32;
            b + [0, 1, 2, 5, (2 * W) as i32, -1, -3, -(W as i32), -99][choose(if sh == 1 { 5 } else { 9 }) as usize]
        }
    };
    let z = zdigits(d, sh);
    let r = BigFloat::convert_from_radix(s, d, e, radix(sh), p, rm, &mut cc);
    let es = e as i64 * sh as i64;
    let k = -((n * sh) as i64);
    check(!r.is_nan(), 1);
    if z.eq(zu(0)) {
        check(r.is_zero() & canonical(&r), 2);
        return;
    }
    let z = if s == Sign::Neg { z.neg() } else { z };
    check(r.is_zero() | (r.is_negative() == (s == Sign::Neg)), 3);
    if mode == 0 {
        if p == AUTO {
            check_exact(&r, z, k, es, false, 10);
        } else {
            check_rounded(&r, z, k, es, p, rm, false, 30);
        }
    } else if p == AUTO {
        if r.is_inf() {
            check_ranged(&r, z, es + k, zu(1), false, n * sh + W, RoundingMode::ToZero, false, 50);
        } else {
            // exact, however many words that takes
            check(canonical(&r), 60);
            let (m, _, sg, e, ix) = r.as_raw_parts().unwrap();
            let kr = e as i64 - (m.len() * W) as i64;
            let c = if kr < es + k { kr } else { es + k };
            check(!ix & ((kr - c) < 9999) & ((es + k - c) < 9999), 61);
            let zr = zw(m);
            let zr = if sg == Sign::Neg { zr.neg() } else { zr };
            check(zr.shl((kr - c) as usize).eq(z.shl((es + k - c) as usize)), 62);
        }
    } else {
        check_ranged(&r, z, es + k, zu(1), false, p, rm, false, 70);
    }
}

/// A digit that the radix does not have is refused, wherever it is.
fn bad_digit<const D: usize>() {
    let mut cc = Consts::new().unwrap();
    snap();
    let rk = choose(4) as usize;
    let (rdx, b) = [(Radix::Bin, 2), (Radix::Oct, 8), (Radix::Hex, 16), (Radix::Dec, 10)][rk];
    let n = 1 + choose(D as u64) as usize;
    let mut d = [0u8; D];
    let at = choose(n as u64) as usize;
    for (i, x) in d[..n].iter_mut().enumerate() {
        *x = sym(8) as u8;
        assume(if i == at { *x >= b } else { *x < b });
    }
    let p = [W, AUTO][choose(2) as usize];
    let e = [0, 7, -9][choose(3) as usize];
    let r = BigFloat::convert_from_radix(any_sign(), &d[..n], e, rdx, p, RoundingMode::ToEven, &mut cc);
    check(r.is_nan() & (r.err() == Some(Error::InvalidArgument)), 100);
    cover(true, rk as u32);
}

/// A number to its digits in a power-of-two radix.
fn to_pow2<const N: usize>(sh: usize) {
    let mut cc = Consts::new().unwrap();
    snap();
    let a = any_num::<N>(3);
    let r = a.v.convert_to_radix(radix(sh), any_rm(), &mut cc);
    let (s, d, e) = match r {
        Ok(v) => v,
        Err(_) => {
            check(false, 110);
            return;
        }
    };
    let z = zw(&a.w);
    if z.eq(zu(0)) {
        for x in d.iter() {
            check(*x == 0, 111);
        }
        return;
    }
    check(s == a.s, 112);
    check(!d.is_empty(), 113);
    for x in d.iter() {
        check((*x as u64) < 1 << sh, 114);
    }
    check(d[d.len() - 1] != 0, 115);
    check((d[0] != 0) | a.v.is_subnormal(), 116);
    // value: digits * 2^(sh * (e - len)) = w * 2^(E - N * W)
    let diff = concretize((e as i64 * sh as i64 - a.e as i64) as u64) as i64;
    let kd = diff - (sh * d.len()) as i64;
    let kw = -((N * W) as i64);
    let c = if kd < kw { kd } else { kw };
    check((kd - c < 999) & (kw - c < 999), 117);
    check(zdigits(&d, sh).shl((kd - c) as usize).eq(z.shl((kw - c) as usize)), 118);
    cover(true, 110);
}

/// Formatting and parsing again.
fn round_trip<const N: usize>(sh: usize) {
    let mut cc = Consts::new().unwrap();
    snap();
    let k = choose(3);
    let e = if k == SUBNORMAL { EXPONENT_MIN } else {
        [0, 1, -1, 3, -4, 17, -250, 999_999, -1_000_001, EXPONENT_MAX, EXPONENT_MIN + 1, EXPONENT_MIN, EXPONENT_MAX - 2][choose(13) as usize]
    };
    let a = num_of::<N>(k, any_sign(), e, false);
    let t = a.v.format(radix(sh), RoundingMode::ToEven, &mut cc);
    let t = match t {
        Ok(t) => t,
        Err(_) => {
            check(false, 120);
            return;
        }
    };
    let p = [N * W, AUTO][choose(2) as usize];
    let r = BigFloat::parse(&t, radix(sh), p, RoundingMode::ToEven, &mut cc);
    check(!r.is_nan() & !r.is_inf(), 121);
    if k == ZERO {
        check(r.is_zero(), 122);
        return;
    }
    if p == AUTO {
        check(canonical(&r), 123);
        let (m, _, s, e2, _) = r.as_raw_parts().unwrap();
        check((s == a.s), 124);
        let kr = e2 as i64 - (m.len() * W) as i64;
        let ka = a.e as i64 - (N * W) as i64;
        let c = if kr < ka { kr } else { ka };
        check((kr - c < 999) & (ka - c < 999), 125);
        check(zw(m).shl((kr - c) as usize).eq(zw(&a.w).shl((ka - c) as usize)), 126);
    } else {
        check(same(&r, &a.w, a.s, a.e, false), 127);
    }
    cover(true, 120);
}

// ------------------------------------------------------------------ decimal

const EXPS: [i32; 14] = [0, 1, 2, 3, -1, -2, 5, -5, 9, 13, -11, 26, -31, 45];

const HARD: [i32; 8] = [-40, 61, -77, 100, -130, 173, -260, 301];

/// Is D * u the magnitude X rounded to n decimal digits? d = X - D * u.
fn round10_ok(d: Z, u: Z, odd: bool, low: bool, k: Dir) -> bool {
    let z = zu(0);
    let t = zu(10);
    match k {
        Dir::Floor => z.le(d) & d.lt(u),
        Dir::Ceil => d.le(z) & u.neg().lt(d) & (!low | u.neg().lt(d.mul(t))),
        Dir::Even | Dir::Odd => {
            let d2 = d.shl(1);
            let d20 = d2.mul(t);
            let up = d2.le(u);
            let dn = u.neg().le(d2) & (!low | u.neg().le(d20));
            let tie = d2.eq(u) | (!low & d2.eq(u.neg())) | (low & d20.eq(u.neg()));
            up & dn & (!tie | (odd == (k == Dir::Odd)))
        }
        Dir::Loose => u.neg().lt(d) & d.lt(u),
    }
}

fn digit() -> u8 {
    let d = sym(4) as u8;
    assume(d < 10);
    d
}

/// Decimal digits to a number.
fn from_dec<const D: usize>(sel: u64, exps: &[i32]) {
    let mut cc = Consts::new().unwrap();
    snap();
    let mut d = [0u8; D];
    for x in d.iter_mut() {
        *x = digit();
    }
    let s = any_sign();
    let p = [W, 2 * W][choose(sel) as usize];
    let rm = any_rm();
    let e = exps[choose(exps.len() as u64) as usize];
    run_dec(&d, s, e, p, rm, &mut cc);
}

fn run_dec(d: &[u8], s: Sign, e: i32, p: usize, rm: RoundingMode, cc: &mut Consts) {
    let r = BigFloat::convert_from_radix(s, d, e, Radix::Dec, p, rm, cc);
    check(!r.is_nan() & !r.is_inf(), 130);
    let z = zdec(d);
    if z.eq(zu(0)) {
        check(r.is_zero() & canonical(&r), 131);
        return;
    }
    let n = e as i64 - d.len() as i64;
    let (num, den) = if n >= 0 { (z.mul(pow10(n as usize)), zu(1)) } else { (z, pow10((-n) as usize)) };
    check(!r.is_zero(), 132);
    check_quot(&r, num, den, s == Sign::Neg, 0, 0, p, rm, false, 140);
}

/// Decimal digits whose value is exactly, or next to, a number m / 2^k with a few more bits than the result has: the D digits of
/// m * 5^k + off, for all m of the given length, or for those that differ from a fixed one in their lowest bits.
fn hard_dec<const D: usize>(k: usize, mbits: usize, low: usize, off: i64, p: usize, full: u64) {
    let mut cc = Consts::new().unwrap();
    snap();
    let m = if low == 0 {
        zsym(mbits)
    } else {
        let base = match choose(4) {
            0 => zu(1).shl(mbits - 1),
            1 => zu(1).shl(mbits).sub(zu(1).shl(low)),
            2 => zu(1).shl(mbits).sub(zu(1).shl(mbits / 2)),
            _ => zu(0xb5).shl(mbits - 8).add(zu(0x39).shl(low)),
        };
        base.add(zsym(low))
    };
    assume(m.bit(mbits - 1));
    let mut f = zu(1);
    for _ in 0..k {
        f = f.mul(zu(5));
    }
    let mut z = m.mul(f).add(zi(off));
    if full > 0 {
        solve(full);
    }
    let mut d = [0u8; D];
    for x in d.iter_mut().rev() {
        let q = z.divc(zu(10));
        *x = z.sub(q.mul(zu(10))).to_u64() as u8;
        z = q;
    }
    check(z.eq(zu(0)), 129);
    let rm = any_rm();
    let s = if choose(2) == 0 { Sign::Pos } else { Sign::Neg };
    run_dec(&d, s, D as i32 - k as i32, p, rm, &mut cc);
}

/// A number to decimal digits.
fn to_dec<const N: usize>(exps: &[i32], free: usize) {
    let mut cc = Consts::new().unwrap();
    snap();
    let w = if free == 0 {
        any_mantissa::<N>()
    } else {
        let mut w = pattern::<N>();
        w[0] ^= sym(free as u32) as Word;
        w
    };
    let e = exps[choose(exps.len() as u64) as usize];
    let s = any_sign();
    let rm = any_rm();
    dec_digits(&w, s, e, rm, &mut cc);
}

fn dec_digits(w: &[Word], s: Sign, e: i32, rm: RoundingMode, cc: &mut Consts) {
    let x = build(w, s, e);
    let (sg, d, ed) = match x.convert_to_radix(Radix::Dec, rm, cc) {
        Ok(v) => v,
        Err(_) => {
            check(false, 150);
            return;
        }
    };
    let nb = w.len() * W;
    let n = (nb as u64 * 301029996 / 1000000000) as usize + 1;
    check(sg == s, 151);
    check((d.len() > 0) & (d.len() <= n), 152);
    check(d[0] != 0, 153);
    for x in d.iter() {
        check(*x < 10, 154);
    }
    check(d[d.len() - 1] != 0, 155);
    let ed = concretize(ed as i64 as u64) as i64;
    let mut z = zdec(&d);
    for _ in d.len()..n {
        z = z.mul(zu(10));
    }
    // |x| = w * 2^kx, result z * 10^kz
    let kx = e as i64 - nb as i64;
    let kz = ed - n as i64;
    check((kz < 999) & (kz > -999), 156);
    let mut x = zw(w);
    let mut u = zu(1);
    if kx >= 0 { x = x.shl(kx as usize) } else { u = u.shl(-kx as usize) }
    if kz >= 0 { u = u.mul(pow10(kz as usize)) } else { x = x.mul(pow10(-kz as usize)) }
    let df = x.sub(z.mul(u));
    let low = z.eq(pow10(n - 1));
    check(round10_ok(df, u, z.bit(0), low, dir(rm, s == Sign::Neg)), 157);
    cover(df.eq(zu(0)), 150);
    cover(!df.eq(zu(0)), 151);
}

/// Numbers whose decimal expansion breaks off, or nearly does, behind the last digit that is kept, or at half a unit of it.
fn hard_to_dec<const N: usize>(e: i32, half: bool, dist: u64, max: u64) {
    let mut cc = Consts::new().unwrap();
    snap();
    let w = any_mantissa::<N>();
    let nb = N * W;
    let n = (nb as u64 * 301029996 / 1000000000) as usize + 1;
    // w * 2^(e - nb) = (t + dist / 2^..) * 10^kz / 2
    let kx = e as i64 - nb as i64;
    let lg = ((e as i64) * 30103).div_euclid(100000);
    let kz = lg + choose(2) as i64 - n as i64;
    let mut x = zw(&w).shl(1);
    let mut u = zu(1);
    if kx >= 0 { x = x.shl(kx as usize) } else { u = u.shl(-kx as usize) }
    if kz >= 0 { u = u.mul(pow10(kz as usize)) } else { x = x.mul(pow10(-kz as usize)) }
    let mut t = zsym(n * 10 / 3 + 2).shl(1);
    if half { t = t.add(zu(1)) }
    assume(zu(1).le(t));
    let df = x.sub(t.mul(u));
    let lim = u.mul(zu(dist));
    let lim = lim.shr(nb);
    assume(df.le(lim) & lim.neg().le(df));
    solve(max);
    let rm = any_rm();
    let s = if choose(2) == 0 { Sign::Pos } else { Sign::Neg };
    dec_digits(&w, s, e, rm, &mut cc);
}

// ------------------------------------------------------------------ text

fn text(b: &[u8]) -> &str {
    unsafe { core::str::from_utf8_unchecked(b) }
}

fn rdx_of(k: u64) -> (Radix, u64, usize) {
    match k {
        0 => (Radix::Bin, 2, 1),
        1 => (Radix::Oct, 8, 3),
        2 => (Radix::Hex, 16, 4),
        _ => (Radix::Dec, 10, 0),
    }
}

/// The value of an ASCII character as a digit, or 99.
fn digit_of(c: u8) -> u64 {
    if c >= b'0' && c <= b'9' {
        (c - b'0') as u64
    } else if c >= b'a' && c <= b'f' {
        (c - b'a') as u64 + 10
    } else if c >= b'A' && c <= b'F' {
        (c - b'A') as u64 + 10
    } else {
        99
    }
}

fn any_digit(base: u64) -> (u64, u8) {
    let d = sym(4);
    assume(d < base);
    let c = if base == 16 {
        let case = (sym(1) as u8) << 5;
        if d < 10 { b'0' + d as u8 } else { b'A' - 10 + d as u8 + case }
    } else {
        b'0' + d as u8
    };
    (d, c)
}

struct Buf {
    b: [u8; 48],
    n: usize,
}
impl Buf {
    fn new() -> Self {
        Buf { b: [0; 48], n: 0 }
    }
    fn put(&mut self, c: u8) {
        self.b[self.n] = c;
        self.n += 1;
    }
    fn str(&self) -> &str {
        text(&self.b[..self.n])
    }
}

/// (digits, places behind the point, sign, exponent of the radix) against the result
fn check_text(r: &BigFloat, rk: u64, z: Z, nf: i64, neg: bool, x: i64, p: usize, rm: RoundingMode, id: u32) {
    let (_, _, sh) = rdx_of(rk);
    if z.eq(zu(0)) {
        check(r.is_zero() & canonical(r), id);
        return;
    }
    check(r.is_zero() | (r.is_negative() == neg), id + 1);
    if sh == 0 {
        let n = concretize((x - nf) as u64) as i64;
        let (num, den) = if n >= 0 { (z.mul(pow10(n as usize)), zu(1)) } else { (z, pow10((-n) as usize)) };
        if p != AUTO {
            check_quot(r, num, den, neg, 0, 0, p, rm, false, id + 2);
        }
        return;
    }
    let z = if neg { z.neg() } else { z };
    if p == AUTO {
        check_exact(r, z, -nf * sh as i64, x * sh as i64, false, id + 20);
    } else {
        check_rounded(r, z, -nf * sh as i64, x * sh as i64, p, rm, false, id + 40);
    }
}

/// Text of the documented form. ni, nf: most digits before and behind the point; xd: most exponent digits.
fn parse_form(rk: u64, ni: u64, nf: u64, xd: u64) {
    let mut cc = Consts::new().unwrap();
    snap();
    let (rdx, base, _) = rdx_of(rk);
    let mut t = Buf::new();
    let mut neg = false;
    match choose(3) {
        0 => {}
        1 => t.put(b'+'),
        _ => {
            t.put(b'-');
            neg = true;
        }
    }
    let lead = choose(2);
    for _ in 0..lead {
        t.put(b'0');
    }
    let ni = choose(ni + 1);
    let mut z = zu(0);
    for _ in 0..ni {
        let (d, c) = any_digit(base);
        t.put(c);
        z = z.mul(zu(base)).add(zu(d));
    }
    let mut nfr = 0;
    if choose(2) == 1 {
        t.put(b'.');
        nfr = choose(nf + 1);
        for _ in 0..nfr {
            let (d, c) = any_digit(base);
            t.put(c);
            z = z.mul(zu(base)).add(zu(d));
        }
    }
    let mut x = 0i64;
    let none = lead + ni + nfr == 0;
    if choose(2) == 1 {
        if base == 16 {
            t.put(b'_');
        }
        t.put(if sym(1) == 0 { b'e' } else { b'E' });
        let xs = choose(3);
        if xs == 1 {
            t.put(b'+')
        }
        if xs == 2 {
            t.put(b'-')
        }
        for _ in 0..choose(xd + 1) {
            let (d, c) = any_digit(base);
            t.put(c);
            x = x * base as i64 + d as i64;
        }
        if xs == 2 {
            x = -x;
        }
    }
    let p = [W, AUTO][choose(if base == 10 { 1 } else { 2 }) as usize];
    // rounding as such is the subject of other harnesses
    let rm = if p == AUTO { RoundingMode::ToEven } else { [RoundingMode::ToEven, RoundingMode::Up][choose(2) as usize] };
    let r = BigFloat::parse(t.str(), rdx, p, rm, &mut cc);
    if none {
        check(r.is_nan(), 200);
        return;
    }
    check(!r.is_nan() & !r.is_inf(), 201);
    check_text(&r, rk, z, nfr as i64, neg, x, p, rm, 210);
    cover(true, 200);
}

/// Exponents that do not fit.
fn parse_far(rk: u64) {
    let mut cc = Consts::new().unwrap();
    snap();
    let (rdx, base, _) = rdx_of(rk);
    let mut t = Buf::new();
    let neg = choose(2) == 1;
    if neg {
        t.put(b'-');
    }
    let ni = choose(3);
    let nf = if ni == 0 { 1 + choose(2) } else { choose(2) };
    let mut z = zu(0);
    for _ in 0..ni {
        let (d, c) = any_digit(base);
        t.put(c);
        z = z.mul(zu(base)).add(zu(d));
    }
    if nf > 0 {
        t.put(b'.');
    }
    for _ in 0..nf {
        let (d, c) = any_digit(base);
        t.put(c);
        z = z.mul(zu(base)).add(zu(d));
    }
    if base == 16 {
        t.put(b'_');
    }
    t.put(b'e');
    let xneg = choose(2) == 1;
    if xneg {
        t.put(b'-');
    }
    // the digits of base^n at least
    let n = match rk {
        0 => [32, 33, 34][choose(3) as usize],
        1 => [11, 12, 13, 20, 22, 30][choose(6) as usize],
        2 => [8, 9, 15, 16, 17, 30][choose(6) as usize],
        _ => [10, 11, 18, 19, 20, 30][choose(6) as usize],
    };
    let mut x = zu(0);
    for i in 0..n {
        let (d, c) = if i < 1 { any_digit(base) } else { any_digit(if base == 16 { 10 } else { base }) };
        if i == 0 {
            assume(d > 0);
        }
        t.put(c);
        x = x.mul(zu(base)).add(zu(d));
    }
    assume(zu((1 << 31) + 99).lt(x));
    let p = [W, AUTO][choose(2) as usize];
    let rm = if p == AUTO { RoundingMode::ToEven } else { any_rm() };
    let r = BigFloat::parse(t.str(), rdx, p, rm, &mut cc);
    check(!r.is_nan(), 300);
    if z.eq(zu(0)) {
        check(r.is_zero() & canonical(&r), 301);
    } else if xneg {
        check(!r.is_inf() & canonical(&r), 302);
        if !r.is_zero() {
            check((r.exponent() == Some(EXPONENT_MIN)) & (r.is_negative() == neg) & r.inexact(), 303);
        }
        cover(true, 300);
    } else {
        check(if neg { r.is_inf_neg() } else { r.is_inf_pos() }, 304);
        cover(true, 301);
    }
}

/// Any text whatsoever, of N bytes.
fn parse_any<const N: usize>(rk: u64) {
    let mut cc = Consts::new().unwrap();
    snap();
    let (rdx, base, _) = rdx_of(rk);
    let n = choose(N as u64 + 1) as usize;
    let mut b = [0u8; N];
    // a character of two bytes at one place, or none
    let wide = choose(n as u64 + 1) as usize;
    for i in 0..n {
        b[i] = sym(8) as u8;
        if wide + 1 < n && i == wide {
            assume((b[i] >= 0xc2) & (b[i] < 0xe0));
        } else if wide + 1 < n && i == wide + 1 {
            assume((b[i] >= 0x80) & (b[i] < 0xc0));
        } else {
            assume(b[i] < 0x80);
        }
    }
    let p = if base == 10 { W } else { [W, AUTO][choose(2) as usize] };
    let rm = RoundingMode::ToEven;
    let r = BigFloat::parse(text(&b[..n]), rdx, p, rm, &mut cc);
    // read it again by the rules
    let at = |i: usize| if i < n { b[i] } else { 0 };
    let low = |i: usize| at(i) | 0x20;
    let mut i = 0;
    let mut neg = false;
    if at(0) == b'+' {
        i = 1;
    } else if at(0) == b'-' {
        i = 1;
        neg = true;
    }
    if n == i + 3 && low(i) == b'i' && low(i + 1) == b'n' && low(i + 2) == b'f' {
        check(if neg { r.is_inf_neg() } else { r.is_inf_pos() }, 400);
        cover(true, 400);
        return;
    }
    if low(i) == b'n' {
        check(r.is_nan() & r.err().is_none(), 401);
        return;
    }
    let mut z = zu(0);
    let mut cnt = 0;
    while digit_of(at(i)) < base {
        z = z.mul(zu(base)).add(zu(digit_of(at(i))));
        i += 1;
        cnt += 1;
    }
    let mut nf = 0;
    if at(i) == b'.' {
        i += 1;
        while digit_of(at(i)) < base {
            z = z.mul(zu(base)).add(zu(digit_of(at(i))));
            i += 1;
            nf += 1;
        }
    }
    if cnt + nf == 0 {
        if low(i) != b'i' {
            check(r.is_nan(), 402);
            cover(true, 402);
        }
        return;
    }
    let mut x = 0;
    if base != 16 || at(i) == b'_' {
        if base == 16 {
            i += 1;
        }
        if low(i) == b'e' {
            i += 1;
            let mut xneg = false;
            if at(i) == b'+' {
                i += 1;
            } else if at(i) == b'-' {
                xneg = true;
                i += 1;
            }
            while digit_of(at(i)) < base {
                x = x * base as i64 + digit_of(at(i)) as i64;
                i += 1;
            }
            if xneg {
                x = -x;
            }
        }
    }
    if i == n {
        check(!r.is_nan() & !r.is_inf(), 403);
        check_text(&r, rk, z, nf, neg, x, p, rm, 410);
        cover(true, 403);
    }
}

/// FromStr is the decimal parser in automatic precision.
fn from_str() {
    let mut cc = Consts::new().unwrap();
    snap();
    let mut t = Buf::new();
    for _ in 0..choose(4) {
        let c = sym(7) as u8;
        t.put(c);
    }
    let a = BigFloat::parse(t.str(), Radix::Dec, AUTO, RoundingMode::ToEven, &mut cc);
    let b: Result<BigFloat, Error> = t.str().parse();
    match b {
        Ok(b) => {
            check(a.is_nan() == b.is_nan(), 500);
            check(a.is_inf_pos() == b.is_inf_pos(), 501);
            check(a.is_inf_neg() == b.is_inf_neg(), 502);
            if let (Some((m, _, s, e, x)), Some(_)) = (a.as_raw_parts(), b.as_raw_parts()) {
                check(same(&b, m, s, e, x), 503);
            }
        }
        Err(_) => check(a.is_nan() & a.err().is_some(), 504),
    }
}

harnesses! {
    h_frombin => from_pow2::<12>(1, 0);
    h_frombin_hi => from_pow2::<10>(1, 1);
    h_frombin_lo => from_pow2::<10>(1, 2);
    h_fromoct => from_pow2::<7>(3, 0);
    h_fromoct_hi => from_pow2::<5>(3, 1);
    h_fromoct_lo => from_pow2::<5>(3, 2);
    h_fromhex => from_pow2::<6>(4, 0);
    h_fromhex_hi => from_pow2::<4>(4, 1);
    h_fromhex_lo => from_pow2::<4>(4, 2);
    h_fromhex_l => from_pow2::<20>(4, 0);
    h_fromoct_l => from_pow2::<23>(3, 0);
    h_baddigit => bad_digit::<3>();
    h_tobin_1 => to_pow2::<1>(1);
    h_tooct_1 => to_pow2::<1>(3);
    h_tohex_1 => to_pow2::<1>(4);
    h_tobin_2 => to_pow2::<2>(1);
    h_tooct_2 => to_pow2::<2>(3);
    h_tohex_2 => to_pow2::<2>(4);
    h_tooct_3 => to_pow2::<3>(3);
    h_tohex_3 => to_pow2::<3>(4);
    h_tripbin_1 => round_trip::<1>(1);
    h_trippoct_1 => round_trip::<1>(3);
    h_triphex_1 => round_trip::<1>(4);
    h_tripbin_2 => round_trip::<2>(1);
    h_trippoct_2 => round_trip::<2>(3);
    h_triphex_2 => round_trip::<2>(4);
    h_fromdec_1 => from_dec::<1>(2, &EXPS);
    h_fromdec_2 => from_dec::<2>(2, &EXPS[..10]);
    h_fromdec_3 => from_dec::<3>(1, &[0, 2, 3, 4, -3, 7]);
    h_fromdec_4 => from_dec::<4>(1, &[0, 4, 11]);
    h_fromdec_tie => hard_dec::<11>(11, 9, 0, [0, 1, -1][choose(3) as usize], 8, 0);
    h_fromdec_ties => hard_dec::<11>(11, 9, 0, [0, 1, -1][choose(3) as usize], 8, 600);
    h_fromdec_tiel => hard_dec::<14>(15, 9, 0, [0, 1, -1][choose(3) as usize], 8, 0);
    h_fromdec_tie64 => hard_dec::<79>(84, 65, 4, [0, 1, -1][choose(3) as usize], 64, 99);
    h_fromdec_tie64l => hard_dec::<85>(93, 65, 4, [0, 1, -1][choose(3) as usize], 64, 99);
    h_todec_1 => to_dec::<1>(&EXPS, 0);
    h_todec_2 => to_dec::<2>(&EXPS[..6], 0);
    h_todec_2p => to_dec::<2>(&EXPS, 4);
    h_todec_3p => to_dec::<3>(&EXPS, 4);
    h_todec_4p => to_dec::<4>(&EXPS, 4);
    h_todec_h2 => hard_to_dec::<2>(HARD[choose(8) as usize], choose(2) == 1, 8, 99);
    h_todec_h3 => hard_to_dec::<3>(HARD[choose(8) as usize], choose(2) == 1, 4, 99);
    h_todec_h4 => hard_to_dec::<4>(HARD[choose(8) as usize], choose(2) == 1, 2, 99);
    h_todec_h64 => hard_to_dec::<1>([-160, 161, 240, -333, 401, -505, 777, -1003][choose(8) as usize], choose(2) == 1, 2, 99);
    h_parse_bin => parse_form(0, 3, 2, 3);
    h_parse_oct => parse_form(1, 2, 2, 2);
    h_parse_hex => parse_form(2, 2, 1, 1);
    h_parse_dec => parse_form(3, 1, 1, 1);
    h_parsefar_bin => parse_far(0);
    h_parsefar_oct => parse_far(1);
    h_parsefar_hex => parse_far(2);
    h_parsefar_dec => parse_far(3);
    h_parseany_bin => parse_any::<5>(0);
    h_parseany_oct => parse_any::<4>(1);
    h_parseany_hex => parse_any::<4>(2);
    h_parseany_dec => parse_any::<3>(3);
    h_fromstr => from_str();
}
