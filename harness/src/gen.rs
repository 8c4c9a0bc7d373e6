//! Arbitrary numbers and the rounding specification.
#![allow(dead_code)]
use crate::vx::*;
pub use astro_float_num::{BigFloat, Exponent, RoundingMode, Sign, Word, EXPONENT_MAX, EXPONENT_MIN, WORD_BIT_SIZE};

pub const W: usize = WORD_BIT_SIZE;

pub const RMS: [RoundingMode; 7] = [
    RoundingMode::Up,
    RoundingMode::Down,
    RoundingMode::ToZero,
    RoundingMode::FromZero,
    RoundingMode::ToEven,
    RoundingMode::ToOdd,
    RoundingMode::None,
];

#[inline(always)]
pub fn any_rm() -> RoundingMode {
    RMS[choose(6) as usize]
}

#[inline(always)]
pub fn any_sign() -> Sign {
    if choose(2) == 0 {
        Sign::Pos
    } else {
        Sign::Neg
    }
}

#[inline(always)]
pub fn any_words<const N: usize>() -> [Word; N] {
    let mut w = [0 as Word; N];
    for x in w.iter_mut() {
        *x = sym(W as u32) as Word;
    }
    w
}

/// Arbitrary normalised mantissa.
#[inline(always)]
pub fn any_mantissa<const N: usize>() -> [Word; N] {
    let mut w = any_words::<N>();
    w[N - 1] |= 1 << (W - 1);
    w
}

pub fn build(w: &[Word], s: Sign, e: Exponent) -> BigFloat {
    let r = BigFloat::from_raw_parts(w, w.len() * W, s, e, false);
    check(!r.is_nan(), 90);
    r
}

/// Words in the mantissa for precision `p`.
pub fn words_for(p: usize) -> usize {
    (p + W - 1) / W
}

#[derive(Clone, Copy, PartialEq)]
pub enum Dir {
    Floor,
    Ceil,
    Even,
    Odd,
    Loose,
}

/// Rounding direction for the magnitude.
pub fn dir(rm: RoundingMode, neg: bool) -> Dir {
    match rm {
        RoundingMode::Up => if neg { Dir::Floor } else { Dir::Ceil },
        RoundingMode::Down => if neg { Dir::Ceil } else { Dir::Floor },
        RoundingMode::ToZero => Dir::Floor,
        RoundingMode::FromZero => Dir::Ceil,
        RoundingMode::ToEven => Dir::Even,
        RoundingMode::ToOdd => Dir::Odd,
        RoundingMode::None => Dir::Loose,
    }
}

/// Is the magnitude `r * u` the value `x` rounded in the given direction?
/// `d` is `x - r * u` at a scale where `u` is one unit in the last place; `pow2` tells that the
/// next smaller representable magnitude is only half a unit away.
pub fn round_ok(d: Z, u: Z, odd: bool, pow2: bool, k: Dir) -> bool {
    let z = zu(0);
    match k {
        Dir::Floor => z.le(d) & d.lt(u),
        Dir::Ceil => d.le(z) & u.neg().lt(d) & (!pow2 | u.neg().lt(d.shl(1))),
        Dir::Even | Dir::Odd => {
            let d2 = d.shl(1);
            let d4 = d.shl(2);
            let in_up = d2.le(u);
            let in_dn = u.neg().le(d2) & (!pow2 | u.neg().le(d4));
            let tie = d2.eq(u) | (!pow2 & d2.eq(u.neg())) | (pow2 & d4.eq(u.neg()));
            in_up & in_dn & (!tie | (odd == (k == Dir::Odd)))
        }
        Dir::Loose => u.neg().lt(d) & d.lt(u),
    }
}

/// Checks that `r` is `num * 2^(base + k) / den` (den > 0; `num` positive, the sign given apart)
/// rounded to precision `p`; the result is away from the limits of the exponent range.
#[allow(clippy::too_many_arguments)]
pub fn check_quot(r: &BigFloat, num: Z, den: Z, neg: bool, k: i64, base: i64, p: usize, rm: RoundingMode, ix: bool, id: u32) {
    let (m, n, s, e, inexact) = match r.as_raw_parts() {
        Some(v) => v,
        None => {
            check(false, id + 1);
            return;
        }
    };
    let nw = words_for(p);
    check(m.len() == nw, id + 2);
    check(n == nw * W, id + 3);
    let rz = zw(m);
    check(rz.bit(n - 1), id + 4);
    check(neg == (s == Sign::Neg), id + 5);
    let ed = concretize((e as i64 - base) as u64) as i64;
    let kr = ed - (nw * W) as i64;
    let c = if k < kr { k } else { kr };
    check(((k - c) < 9999) & ((kr - c) < 9999), id + 8);
    let u = den.shl((kr - c) as usize);
    let d = num.shl((k - c) as usize).sub(rz.mul(u));
    let pow2 = rz.eq(zu(1).shl(n - 1));
    check(round_ok(d, u, rz.bit(0), pow2, dir(rm, neg)), id + 6);
    let lost = !d.eq(zu(0));
    check(inexact == (ix | lost), id + 7);
    cover(lost, id);
    cover(!lost, id + 1);
}

/// Checks that `r` is `x * 2^(base + k)` rounded to precision `p`; the result is away from the
/// limits of the exponent range.
#[allow(clippy::too_many_arguments)]
pub fn check_rounded(r: &BigFloat, x: Z, k: i64, base: i64, p: usize, rm: RoundingMode, ix: bool, id: u32) {
    if r.is_zero() {
        check(x.eq(zu(0)), id);
        check(r.inexact() == ix, id + 9);
        return;
    }
    let neg = r.is_negative();
    let xm = if neg { x.neg() } else { x };
    check(zu(0).lt(xm), id + 10);
    check_quot(r, xm, zu(1), neg, k, base, p, rm, ix, id);
}

/// Checks that `r` is exactly `x * 2^(base + k)`.
pub fn check_exact(r: &BigFloat, x: Z, k: i64, base: i64, ix: bool, id: u32) {
    if r.is_zero() {
        check(x.eq(zu(0)), id);
        check(r.inexact() == ix, id + 9);
        return;
    }
    let (m, n, s, e, inexact) = match r.as_raw_parts() {
        Some(v) => v,
        None => {
            check(false, id + 1);
            return;
        }
    };
    check(n == m.len() * W, id + 2);
    let ed = concretize((e as i64 - base) as u64) as i64;
    let kr = ed - n as i64;
    let c = if k < kr { k } else { kr };
    check(((k - c) < 9999) & ((kr - c) < 9999), id + 3);
    let rz = zw(m);
    let rz = if s == Sign::Neg { rz.neg() } else { rz };
    check(rz.shl((kr - c) as usize).eq(x.shl((k - c) as usize)), id + 4);
    check(inexact == ix, id + 5);
    cover(true, id);
}

/// Checks that `r` is `x * 2^k / den` rounded once to precision `p`, over the whole exponent range:
/// infinite beyond the largest finite number, gradually less precise below the smallest normal one.
#[allow(clippy::too_many_arguments)]
pub fn check_ranged(r: &BigFloat, x: Z, k: i64, den: Z, divided: bool, p: usize, rm: RoundingMode, ix: bool, id: u32) {
    let nw = words_for(p);
    let nb = (nw * W) as i64;
    check(!r.is_nan(), id);
    let z0 = zu(0);
    if r.is_inf() {
        let neg = r.is_inf_neg();
        let xm = if neg { x.neg() } else { x };
        check(z0.lt(xm), id + 1);
        let top = EXPONENT_MAX as i64;
        check(top - k < 9999, id + 2);
        if k > top + 99 {
            cover(true, id);
            return; // far beyond the limit
        }
        let c = if k < top - nb { k } else { top - nb };
        // the first value out of range, 2^EXPONENT_MAX; half a unit below it the range ends
        let lim = den.shl((top - c) as usize);
        let u = den.shl((top + 1 - nb - c) as usize);
        let d = xm.shl((k - c) as usize).sub(lim);
        let odd = false;
        check(!d.lt(z0) | round_ok(d, u, odd, true, dir(rm, neg)), id + 3);
        cover(true, id);
        return;
    }
    let (m, _, s, e, inexact) = r.as_raw_parts().unwrap();
    check(m.len() == nw, id + 4);
    check(canonical(r), id + 5);
    let neg = s == Sign::Neg;
    let xm = if neg { x.neg() } else { x };
    let rz = zw(m);
    let zero = r.is_zero();
    if zero & x.eq(z0) {
        check(inexact == ix, id + 6);
        return;
    }
    check(z0.lt(xm), id + 7);
    let e = if zero { EXPONENT_MIN } else { concretize(e as i64 as u64) as i64 as Exponent };
    let kr = e as i64 - nb;
    if kr - k > 9999 {
        // far below the smallest positive number
        check((e == EXPONENT_MIN) & inexact, id + 8);
        let up = rz.eq(zu(1));
        let ok = match dir(rm, neg) {
            Dir::Ceil => up,
            Dir::Loose => up | zero,
            _ => zero,
        };
        check(ok, id + 8);
        cover(true, id + 1);
        return;
    }
    let c = if k < kr { k } else { kr };
    check(k - c < 9999, id + 8);
    let u = den.shl((kr - c) as usize);
    let d = xm.shl((k - c) as usize).sub(rz.mul(u));
    let pow2 = (e > EXPONENT_MIN) & rz.eq(zu(1).shl(nb as usize - 1));
    let ok = round_ok(d, u, rz.bit(0), pow2, dir(rm, neg));
    let normal = rz.bit(nb as usize - 1);
    let c0 = EXPONENT_MIN as i64 - 1;
    let c0 = if c < c0 { c } else { c0 };
    // known finding 18: a result below the smallest normal number is rounded twice
    if matches!(rm, RoundingMode::ToEven | RoundingMode::ToOdd) {
        let mut lossy = rz.mul(den).shl((kr - c) as usize).lt(u) & xm.shl((k - c) as usize).lt(u);
        if divided {
            lossy = true;
        } else {
            for t in 1..3 * W {
                lossy |= xm.shr(nb as usize + t - 1).eq(zu(1)) & !xm.low(t).eq(z0);
            }
        }
        let small = if k - c0 > 9999 { false } else { xm.shl((k - c0) as usize).lt(den.shl((EXPONENT_MIN as i64 - 1 - c0) as usize)) };
        known(lossy & small & !d.eq(z0), 18);
    }
    check(ok, id + 9);
    let lost = !d.eq(z0);
    check(inexact == (ix | lost), id + 10);
    cover(lost & !normal, id + 1);
    cover(!lost & !normal, id + 2);
    cover(normal, id + 3);
    cover(zero, id + 4);
}

/// A finite number of `N` words: any sign, any exponent; zero, normal or subnormal.
pub struct Num<const N: usize> {
    pub w: [Word; N],
    pub s: Sign,
    pub e: Exponent,
    pub inexact: bool,
    pub v: BigFloat,
}

pub const ZERO: u64 = 0;
pub const NORMAL: u64 = 1;
pub const SUBNORMAL: u64 = 2;

/// Number of significant bits (position of the highest one).
#[inline(always)]
pub fn bits_of(w: &[Word]) -> usize {
    let mut n = 0;
    let mut i = 0;
    while i < w.len() {
        if w[i] != 0 {
            n = (i + 1) * W - w[i].leading_zeros() as usize;
        }
        i += 1;
    }
    n
}

pub fn num_words<const N: usize>(w: [Word; N], s: Sign, e: Exponent, inexact: bool) -> Num<N> {
    let v = BigFloat::from_raw_parts(&w, N * W, s, e, inexact);
    check(!v.is_nan(), 90);
    Num { w, s, e, inexact, v }
}

pub fn num_of<const N: usize>(kind: u64, s: Sign, e: Exponent, inexact: bool) -> Num<N> {
    let (w, e) = match kind {
        ZERO => ([0; N], 0),
        NORMAL => (any_mantissa::<N>(), e),
        _ => {
            let mut w = any_words::<N>();
            w[N - 1] &= !(1 << (W - 1));
            let b = bits_of(&w);
            assume(b != 0);
            if N > 1 {
                // a few magnitudes only
                assume((b == 1) | (b == W) | (b == W + 1) | (b == N * W - 1));
            }
            (w, EXPONENT_MIN)
        }
    };
    if kind == NORMAL {
        return num_words(w, s, e, inexact);
    }
    policy(1);
    let n = bits_of(&w);
    let v = BigFloat::from_raw_parts(&w, n, s, e, inexact);
    policy(0);
    check(!v.is_nan(), 90);
    Num { w, s, e, inexact, v }
}

pub fn any_exp() -> Exponent {
    sym(32) as u32 as i32
}
pub fn any_bool() -> bool {
    sym(1) != 0
}

/// Anything finite.
pub fn any_num<const N: usize>(kinds: u64) -> Num<N> {
    let k = choose(kinds);
    let s = any_sign();
    let e = any_exp();
    num_of::<N>(k, s, e, any_bool())
}

/// Same value, sign, flags and representation.
pub fn same(a: &BigFloat, w: &[Word], s: Sign, e: Exponent, inexact: bool) -> bool {
    match a.as_raw_parts() {
        None => false,
        Some((m, n, s1, e1, i1)) => {
            if m.len() != w.len() {
                return false;
            }
            let mut d = (s1 != s) | (e1 != e) | (i1 != inexact) | (n != bits_of(w));
            for i in 0..w.len() {
                d |= m[i] != w[i];
            }
            !d
        }
    }
}

/// Is `a` represented canonically: the top bit set unless the exponent is minimal, the bit length
/// right, zero with exponent 0?
pub fn canonical(a: &BigFloat) -> bool {
    match a.as_raw_parts() {
        None => true,
        Some((m, n, _, e, _)) => {
            let b = bits_of(m);
            (n == b) & ((b == m.len() * W) | (e == EXPONENT_MIN) | (b == 0)) & ((b != 0) | (e == 0))
        }
    }
}

/// Normalised mantissas that exercise the corrections of long division, and plain ones.
pub fn pattern<const N: usize>() -> [Word; N] {
    let k = choose(if N == 1 { 6 } else { 10 });
    let top: Word = 1 << (W - 1);
    let mut w = [0; N];
    match k {
        0 => w[N - 1] = top,
        1 => {
            w[N - 1] = top;
            w[0] |= 1;
        }
        2 => w = [!0; N],
        3 => {
            w = [!0; N];
            w[0] = !0 - 1;
        }
        4 => {
            w = [0xa5; N];
            w[N - 1] |= top;
        }
        5 => {
            w = [0x3c; N];
            w[N - 1] = top | 0x5d;
        }
        6 => {
            w = [!0; N];
            w[N - 1] = top;
        }
        7 => w[N - 1] = !0,
        8 => {
            w[N - 1] = top;
            w[N - 2] = top;
        }
        _ => {
            w = [0xff; N];
            w[N - 1] = !0;
            w[N - 2] = 1;
        }
    }
    w
}

/// Total order of finite numbers: -1, 0, 1.
pub fn spec_abs_cmp(a: &[Word], ae: Exponent, b: &[Word], be: Exponent) -> i32 {
    let az = bits_of(a) == 0;
    let bz = bits_of(b) == 0;
    if az | bz {
        return bz as i32 - az as i32;
    }
    let l = if a.len() > b.len() { a.len() } else { b.len() };
    if ae > be {
        return 1;
    }
    if ae < be {
        return -1;
    }
    let za = zw(a).shl((l - a.len()) * W);
    let zb = zw(b).shl((l - b.len()) * W);
    if za.eq(zb) {
        0
    } else if za.lt(zb) {
        -1
    } else {
        1
    }
}
pub fn spec_cmp(a: &[Word], asg: Sign, ae: Exponent, b: &[Word], bsg: Sign, be: Exponent) -> i32 {
    let az = bits_of(a) == 0;
    let bz = bits_of(b) == 0;
    let sa = if asg == Sign::Neg { -1 } else { 1 };
    let sb = if bsg == Sign::Neg { -1 } else { 1 };
    if az & bz {
        0
    } else if az {
        -sb
    } else if bz {
        sa
    } else if sa != sb {
        sa
    } else {
        let c = spec_abs_cmp(a, ae, b, be);
        if sa < 0 { -c } else { c }
    }
}
