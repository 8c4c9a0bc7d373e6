//! Conversions from machine numbers, special values, arguments close to zero.
use crate::gen::*;
use crate::vx::*;
use astro_float_num::{Consts, Error, INF_NEG, INF_POS, NAN};

// ------------------------------------------------------------------ machine numbers

fn fits(r: &BigFloat, p: usize, id: u32) {
    check(!r.is_nan() & !r.is_inf(), id);
    check(canonical(r), id + 1);
    check(r.mantissa_max_bit_len() == Some(words_for(p) * W), id + 2);
}

macro_rules! from_int {
    ($n:ident, $u:ident, $i:ident, $ut:ty, $it:ty, $bits:literal) => {
        fn $n() {
            let lo = sym(if $bits < 64 { $bits } else { 64 });
            let hi = if $bits > 64 { sym(64) } else { 0 };
            let u = ((hi as u128) << 64 | lo as u128) as $ut;
            let signed = choose(2) == 1;
            let neg = signed & ((u as $it) < 0);
            let mut x = zu(lo).add(zu(hi).shl(64));
            if neg {
                x = x.sub(zu(1).shl($bits));
            }
            let pk = choose(4);
            let p = [128, $bits, 4 * 64 + 1, $bits - 1][pk as usize];
            let r = if signed {
                if pk == 0 { BigFloat::from(u as $it) } else { BigFloat::$i(u as $it, p) }
            } else {
                if pk == 0 { BigFloat::from(u) } else { BigFloat::$u(u, p) }
            };
            if pk == 3 {
                // too small to hold every value of the type
                check(r.is_nan() | !r.is_inf(), 1);
                if r.is_nan() {
                    check(r.err() == Some(Error::InvalidArgument), 1);
                    return;
                }
            }
            fits(&r, p, 2);
            check(r.is_zero() | (r.is_negative() == neg), 5);
            check_exact(&r, x, 0, 0, false, 10);
            cover(neg, 5);
            cover(r.is_zero(), 6);
        }
    };
}
from_int!(from_8, from_u8, from_i8, u8, i8, 8);
from_int!(from_16, from_u16, from_i16, u16, i16, 16);
from_int!(from_32, from_u32, from_i32, u32, i32, 32);
from_int!(from_64, from_u64, from_i64, u64, i64, 64);
from_int!(from_128, from_u128, from_i128, u128, i128, 128);

fn from_float(double: bool) {
    let pk = choose(4);
    let p = [128, 64, 4 * 64 + 1, 1][pk as usize];
    let (r, s, ex, m, top, low, mb);
    if double {
        let b = sym(64);
        let f = f64::from_bits(b);
        r = if pk == 0 { BigFloat::from(f) } else { BigFloat::from_f64(f, p) };
        s = b >> 63 != 0;
        ex = (b >> 52) & 0x7ff;
        m = b & ((1 << 52) - 1);
        (top, low, mb) = (0x7ff, -1074i64, 52);
    } else {
        let b = sym(32) as u32;
        let f = f32::from_bits(b);
        r = if pk == 0 { BigFloat::from(f) } else { BigFloat::from_f32(f, p) };
        s = b >> 31 != 0;
        ex = ((b >> 23) & 0xff) as u64;
        m = (b & ((1 << 23) - 1)) as u64;
        (top, low, mb) = (0xff, -149i64, 23);
    }
    if ex == top {
        if m != 0 {
            check(r.is_nan(), 21);
        } else {
            check(if s { r.is_inf_neg() } else { r.is_inf_pos() }, 22);
            cover(s, 22);
        }
        cover(m != 0, 21);
        return;
    }
    if ex == 0 && m == 0 {
        check(r.is_zero(), 23);
        fits(&r, p, 24);
        cover(true, 23);
        return;
    }
    check(!r.is_nan() & !r.is_inf(), 27);
    if p >= 64 || W == 64 {
        fits(&r, p, 28);
    }
    if ex == 0 {
        check(r.is_negative() == s, 31);
        let x = zu(m);
        if double {
            // recorded finding 11: exactly half of the value
            let (w, n, _, e, _) = r.as_raw_parts().unwrap();
            let e = concretize(e as i64 as u64) as i64;
            let sh = n as i64 - (e - (low - 1));
            if (0 <= sh) & (sh < 999) {
                known(zw(w).eq(x.shl(sh as usize)), 11);
            }
        }
        check_exact(&r, if s { x.neg() } else { x }, low, 0, false, 40);
        cover(true, 24);
    } else {
        check(r.is_negative() == s, 32);
        let x = zu(m | 1 << mb);
        check_exact(&r, if s { x.neg() } else { x }, low - 1, ex as i64, false, 50);
        cover(true, 25);
    }
}

// ------------------------------------------------------------------ special values

const ZV: u64 = 0; // +-0
const FV: u64 = 1; // finite, not zero
const IV: u64 = 2; // +-infinity
const NV: u64 = 3; // NaN

struct Sp {
    k: u64,
    neg: bool,
    err: Option<Error>,
    v: BigFloat,
}

fn sp_of<const N: usize>(k: u64) -> Sp {
    let mut err = None;
    let neg = choose(2) == 1;
    let s = if neg { Sign::Neg } else { Sign::Pos };
    let v = match k {
        ZV => num_of::<N>(ZERO, s, 0, any_bool()).v,
        FV => {
            let mut w = any_words::<N>();
            let e = match choose(3) {
                0 => {
                    w[N - 1] |= 1 << (W - 1);
                    any_exp()
                }
                k => {
                    // subnormal
                    let t = if k == 1 { 3 } else { W - 1 };
                    for i in 1..N {
                        w[i] = 0;
                    }
                    w[0] = (w[0] | 1 << (t - 1)) & ((1 << t) - 1);
                    let v = BigFloat::from_raw_parts(&w, t, s, EXPONENT_MIN, any_bool());
                    check(!v.is_nan(), 90);
                    return Sp { k: FV, neg, err, v };
                }
            };
            BigFloat::from_raw_parts(&w, N * W, s, e, any_bool())
        }
        IV => if neg { INF_NEG } else { INF_POS },
        _ => {
            err = [None, Some(Error::InvalidArgument), Some(Error::MemoryAllocation)][choose(3) as usize];
            if neg & err.is_none() { NAN } else { BigFloat::nan(err) }
        }
    };
    Sp { k, neg, err, v }
}

/// What is expected: NaN (with an error), an infinity or a zero.
#[derive(Clone, Copy, PartialEq)]
enum Ex {
    Nan(Option<Error>),
    AnyNan,
    Inf(bool),
    Zero,
    ZeroS(bool),
    One(bool),
    Same,
}

fn expect(r: &BigFloat, x: Ex, id: u32) {
    let ok = match x {
        Ex::Nan(e) => r.is_nan() & (r.err() == e),
        Ex::AnyNan => r.is_nan(),
        Ex::Inf(n) => if n { r.is_inf_neg() } else { r.is_inf_pos() },
        Ex::Zero => r.is_zero() & canonical(r),
        Ex::ZeroS(n) => r.is_zero() & canonical(r) & (r.is_negative() == n),
        Ex::One(n) => match r.as_raw_parts() {
            None => false,
            Some((m, l, s, e, _)) => zw(m).eq(zu(1).shl(m.len() * W - 1)) & (l == m.len() * W) & (e == 1) & ((s == Sign::Neg) == n),
        },
        Ex::Same => false,
    };
    check(ok, id);
    let c = match x {
        Ex::Nan(_) | Ex::AnyNan => 0,
        Ex::Inf(_) => 1,
        Ex::Zero | Ex::ZeroS(_) => 2,
        _ => 3,
    };
    cover(true, id * 4 + c);
}

/// Both operands of a two-operand operation, at least one of them special.
fn special2<const N: usize>() {
    let k = choose(15);
    let (ka, kb) = if k < 12 { (k / 4, k % 4) } else { (NV, k - 12) };
    let op = choose(8);
    let a = sp_of::<N>(ka);
    let b = sp_of::<N>(kb);
    let p = N * W;
    let rm = RMS[choose(2) as usize];
    if (ka == FV) & (kb == FV) {
        return; // the other properties
    }
    policy(1);
    let r = match op {
        0 => a.v.add(&b.v, p, rm),
        1 => a.v.add_full_prec(&b.v),
        2 => a.v.sub(&b.v, p, rm),
        3 => a.v.sub_full_prec(&b.v),
        4 => a.v.mul(&b.v, p, rm),
        5 => a.v.mul_full_prec(&b.v),
        6 => a.v.div(&b.v, p, rm),
        _ => a.v.rem(&b.v),
    };
    policy(0);
    let bneg = b.neg != ((op == 2) | (op == 3)); // sign of the second summand
    let x = a.neg != b.neg;
    let id = 100 + op as u32;
    if ka == NV {
        expect(&r, Ex::Nan(a.err), id);
        return;
    }
    // the error of the second operand is kept unless the first one alone settles the result
    if kb == NV {
        check(r.is_nan(), id);
        if !((op == 7) & (ka == IV)) {
            expect(&r, Ex::Nan(b.err), id);
        }
        return;
    }
    match op {
        0..=3 => {
            if (ka == IV) & (kb == IV) {
                expect(&r, if a.neg == bneg { Ex::Inf(a.neg) } else { Ex::AnyNan }, id);
            } else if ka == IV {
                expect(&r, Ex::Inf(a.neg), id);
            } else if kb == IV {
                expect(&r, Ex::Inf(bneg), id);
            } else if ka == ZV && kb == ZV {
                expect(&r, Ex::Zero, id);
            } else {
                // the other operand, rounded to the same length: unchanged, perhaps negated
                let (o, neg) = if ka == ZV { (&b.v, bneg) } else { (&a.v, a.neg) };
                let (m, n, s, e, _) = r.as_raw_parts().unwrap();
                let (m2, n2, _, e2, _) = o.as_raw_parts().unwrap();
                check((n == n2) & (e == e2) & ((s == Sign::Neg) == neg) & (m.len() == m2.len()), id + 20);
                check(zw(m).eq(zw(m2)), id + 20);
                cover(true, id * 4 + 3);
            }
        }
        4 | 5 => {
            if (ka == IV) | (kb == IV) {
                expect(&r, if (ka == ZV) | (kb == ZV) { Ex::AnyNan } else { Ex::Inf(x) }, id);
            } else {
                expect(&r, Ex::Zero, id);
            }
        }
        6 => {
            let e = if ((ka == IV) & (kb == IV)) | ((ka == ZV) & (kb == ZV)) {
                Ex::AnyNan
            } else if ka == IV {
                Ex::Inf(x)
            } else if (kb == IV) | (ka == ZV) {
                Ex::Zero
            } else {
                Ex::Inf(x)
            };
            expect(&r, e, id);
        }
        _ => {
            if ka == IV {
                expect(&r, Ex::AnyNan, id);
            } else if (ka == ZV) & (kb != ZV) {
                expect(&r, Ex::Zero, id);
            } else if kb == IV {
                // unchanged
                let (m, _, s, e, ix) = a.v.as_raw_parts().unwrap();
                check(same(&r, m, s, e, ix), id + 20);
                cover(true, id * 4 + 3);
            }
        }
    }
}

/// One-operand operations on zero, infinities and NaN; zero and NaN arguments of the others.
fn special1<const N: usize>() {
    let op = choose(16);
    let k = [ZV, IV, NV][choose(3) as usize];
    let a = sp_of::<N>(k);
    let n = sym(8) as usize;
    let p = N * W;
    let rm = RMS[choose(2) as usize];
    let id = 200 + op as u32;
    let (r, zero, inf) = match op {
        0 => (a.v.sqrt(p, rm), Ex::ZeroS(a.neg), if a.neg { Ex::AnyNan } else { Ex::Inf(false) }),
        1 => (a.v.cbrt(p, rm), Ex::ZeroS(a.neg), Ex::Inf(a.neg)),
        2 => (a.v.reciprocal(p, rm), Ex::Inf(a.neg), Ex::ZeroS(a.neg)),
        3 => (a.v.floor(), Ex::ZeroS(a.neg), Ex::Inf(a.neg)),
        4 => (a.v.ceil(), Ex::ZeroS(a.neg), Ex::Inf(a.neg)),
        5 => (a.v.round(n, rm), Ex::ZeroS(a.neg), Ex::Inf(a.neg)),
        6 => (a.v.int(), Ex::ZeroS(a.neg), Ex::AnyNan),
        7 => (a.v.fract(), Ex::ZeroS(a.neg), Ex::AnyNan),
        8 => (a.v.abs(), Ex::ZeroS(false), Ex::Inf(false)),
        9 => (a.v.neg(), Ex::ZeroS(!a.neg), Ex::Inf(!a.neg)),
        10 => {
            policy(4);
            let n = concretize((n & 3) as u64) as usize;
            policy(0);
            let odd = a.neg & (n & 1 == 1);
            (a.v.powi(n, 1, rm), if n == 0 { Ex::One(false) } else { Ex::Zero }, if n == 0 { Ex::One(false) } else { Ex::Inf(odd) })
        }
        11 => (a.v.clone(), Ex::ZeroS(a.neg), Ex::Inf(a.neg)),
        12 => {
            let mut v = a.v.clone();
            let q = choose(3) as usize * W;
            check(v.set_precision(q, rm).is_ok(), id);
            check((k != ZV) | (v.mantissa_max_bit_len() == Some(q)), id);
            (v, Ex::ZeroS(a.neg), Ex::Inf(a.neg))
        }
        13 => {
            let mut v = a.v.clone();
            v.set_exponent(any_exp());
            (v, Ex::ZeroS(a.neg), Ex::Inf(a.neg))
        }
        14 => {
            let mut v = a.v.clone();
            v.set_inexact(true);
            check(v.inexact() == (k == ZV), id);
            v.set_sign(Sign::Neg);
            (v, Ex::ZeroS(true), Ex::Inf(true))
        }
        _ => {
            let mut v = a.v.clone();
            v.inv_sign();
            (v, Ex::ZeroS(!a.neg), Ex::Inf(!a.neg))
        }
    };
    expect(&r, match k { ZV => zero, IV => inf, _ => Ex::Nan(a.err) }, id);
    // accessors
    if k != ZV {
        check((a.v.exponent() == None) & (a.v.precision() == None) & (a.v.mantissa_max_bit_len() == None), 250);
        check(a.v.as_raw_parts().is_none() & a.v.mantissa_digits().is_none() & !a.v.is_zero() & !a.v.is_int() & !a.v.is_subnormal() & !a.v.inexact(), 251);
        check(a.v.is_inf() == (k == IV), 252);
        check(a.v.is_nan() == (k == NV), 253);
        check(a.v.is_inf_pos() == ((k == IV) & !a.neg), 254);
        check(a.v.is_inf_neg() == ((k == IV) & a.neg), 255);
        check(a.v.is_positive() == ((k == IV) & !a.neg), 256);
        check(a.v.is_negative() == ((k == IV) & a.neg), 257);
        check(a.v.sign().is_none() == (k == NV), 258);
        check(a.v.err() == a.err, 259);
        use core::num::FpCategory::*;
        check(a.v.classify() == if k == IV { Infinite } else { Nan }, 260);
        let g = a.v.signum();
        if k == NV {
            check(g.is_nan(), 261);
        } else {
            expect(&g, Ex::One(a.neg), 262);
        }
    }
}

/// Precisions outside the supported range give NaN with an error, never a panic.
fn badprec() {
    let op = choose(13);
    let a = num_of::<1>(choose(2), any_sign(), any_exp(), any_bool()).v;
    let b = num_of::<1>(choose(2), any_sign(), any_exp(), any_bool()).v;
    let rm = any_rm();
    // anything from the documented limit on
    let lim = (isize::MAX / 2 + EXPONENT_MIN as isize) as u64;
    let p = sym(64);
    assume(p >= lim);
    let p = p as usize;
    let r = match op {
        0 => a.add(&b, p, rm),
        1 => a.sub(&b, p, rm),
        2 => a.mul(&b, p, rm),
        3 => a.div(&b, p, rm),
        4 => a.reciprocal(p, rm),
        5 => a.sqrt(p, rm),
        6 => a.cbrt(p, rm),
        7 => BigFloat::new(p),
        8 => BigFloat::from_word(1, p),
        9 => BigFloat::max_value(p),
        10 => BigFloat::min_positive(p),
        11 => BigFloat::from_f64(1.0, p),
        _ => {
            let mut v = a.clone();
            match v.set_precision(p, rm) {
                Ok(()) => check(a.is_zero(), 270),
                Err(e) => check(e == Error::InvalidArgument, 271),
            }
            BigFloat::from_u128(3, p)
        }
    };
    check(r.is_nan() & (r.err() == Some(Error::InvalidArgument)) | r.is_zero() | r.is_inf(), 272);
    cover(r.is_nan(), op as u32);
}

// ------------------------------------------------------------------ arguments close to zero

/// f(x) for an argument so small that f(x) is x, or 1, moved by less than any rounding can see.
fn tiny<const N: usize>(ek: u64) {
    let mut cc = Consts::new().unwrap();
    snap();
    let op = choose(11);
    let p = [1, W, W + 1, 3 * W][choose(4) as usize];
    let rm = any_rm();
    let s = any_sign();
    let neg = s == Sign::Neg;
    let ix = false;
    let pm = if words_for(p) > N { words_for(p) * W } else { N * W } as i64;
    // the largest exponent for which the function is known to be that close
    let lim = match op {
        0 | 1 | 2 | 3 => 1 - (pm + 1) / 2 - 1,
        4..=9 => -(pm + 1) / 2 - 1,
        _ => -pm - 2,
    };
    let (w, n, e, base) = match ek {
        0 => {
            // anywhere in the middle of the range
            let e = any_exp();
            assume((e as i64 <= lim) & (e as i64 >= EXPONENT_MIN as i64 + 999));
            (any_mantissa::<N>(), N * W, e, e as i64)
        }
        1 => {
            let w = any_mantissa::<N>();
            (w, N * W, lim as Exponent, 0)
        }
        2 => (any_mantissa::<N>(), N * W, EXPONENT_MIN + choose(3) as Exponent, 0),
        _ => {
            // subnormal
            let mut w = any_words::<N>();
            let t = [1, 2, W / 2, W - 1][choose(4) as usize];
            for i in 1..N {
                w[i] = 0;
            }
            w[0] = (w[0] | 1 << (t - 1)) & ((1 << t) - 1);
            (w, t, EXPONENT_MIN, 0)
        }
    };
    let x = BigFloat::from_raw_parts(&w, n, s, e, ix);
    check(!x.is_nan(), 90);
    // 0: at 1, else at x; nudged towards zero / away from zero
    let (r, at_one, away) = match op {
        0 => (x.sin(p, rm, &mut cc), false, false),
        1 => (x.asin(p, rm, &mut cc), false, true),
        2 => (x.sinh(p, rm, &mut cc), false, true),
        3 => (x.asinh(p, rm, &mut cc), false, false),
        4 => (x.tan(p, rm, &mut cc), false, true),
        5 => (x.atan(p, rm, &mut cc), false, false),
        6 => (x.tanh(p, rm, &mut cc), false, false),
        7 => (x.atanh(p, rm, &mut cc), false, true),
        8 => (x.cos(p, rm, &mut cc), true, false),
        9 => (x.cosh(p, rm, &mut cc), true, true),
        _ => (x.exp(p, rm, &mut cc), true, !neg),
    };
    let k = pm as usize + 2;
    let nudge = |z: Z| if away { z.add(zu(1)) } else { z.sub(zu(1)) };
    if at_one {
        check_rounded(&r, nudge(zu(1).shl(k)), -(k as i64), 0, p, rm, false, 300);
    } else {
        let z = nudge(zw(&w).shl(k));
        let z = if neg { z.neg() } else { z };
        let sh = -(N as i64 * W as i64) - k as i64;
        if ek == 0 {
            check_rounded(&r, z, sh, base, p, rm, false, 300);
        } else {
            check_ranged(&r, z, e as i64 + sh, zu(1), false, p, rm, false, 320);
        }
    }
}

// ------------------------------------------------------------------ domains, special and exact values

/// Zero, infinite and NaN arguments of the elementary functions.
fn fspecial<const N: usize>() {
    let mut cc = Consts::new().unwrap();
    snap();
    let op = choose(17);
    let k = [ZV, IV, NV][choose(3) as usize];
    let a = sp_of::<N>(k);
    let p = [1, 2 * W][choose(2) as usize];
    let rm = RMS[choose(2) as usize];
    let c = &mut cc;
    let v = &a.v;
    let z = Ex::ZeroS(a.neg);
    let i = Ex::Inf(a.neg);
    let one = Ex::One(false);
    let skip = Ex::Same;
    let nan = Ex::AnyNan;
    let id = 400 + op as u32;
    let (r, zero, inf) = match op {
        0 => (v.sin(p, rm, c), z, nan),
        1 => (v.cos(p, rm, c), one, nan),
        2 => (v.tan(p, rm, c), z, nan),
        3 => (v.asin(p, rm, c), z, nan),
        4 => {
            if k == ZV {
                return; // pi / 2
            }
            (v.acos(p, rm, c), skip, nan)
        }
        5 => {
            if k == IV {
                return; // pi / 2
            }
            (v.atan(p, rm, c), z, skip)
        }
        6 => (v.sinh(p, rm, c), z, i),
        7 => (v.cosh(p, rm, c), one, Ex::Inf(false)),
        8 => (v.tanh(p, rm, c), z, Ex::One(a.neg)),
        9 => (v.asinh(p, rm, c), z, i),
        10 => (v.acosh(p, rm, c), nan, if a.neg { nan } else { Ex::Inf(false) }),
        11 => (v.atanh(p, rm, c), z, nan),
        12 => (v.exp(p, rm, c), one, if a.neg { Ex::ZeroS(false) } else { Ex::Inf(false) }),
        13 => (v.ln(p, rm, c), Ex::Inf(true), if a.neg { nan } else { Ex::Inf(false) }),
        14 => (v.log2(p, rm, c), Ex::Inf(true), if a.neg { nan } else { Ex::Inf(false) }),
        15 => (v.log10(p, rm, c), Ex::Inf(true), if a.neg { nan } else { Ex::Inf(false) }),
        _ => {
            // NaN in either place of the two-operand functions
            if k != NV {
                return;
            }
            let o = sp_of::<N>(if choose(2) == 0 { FV } else { ZV });
            let r = match choose(4) {
                0 => o.v.pow(v, p, rm, c),
                1 => v.pow(&o.v, p, rm, c),
                2 => o.v.log(v, p, rm, c),
                _ => v.log(&o.v, p, rm, c),
            };
            (r, skip, skip)
        }
    };
    expect(&r, match k { ZV => zero, IV => inf, _ => Ex::Nan(a.err) }, id);
}

/// Arguments outside the domain, for every mantissa and exponent.
fn fdomain<const N: usize>() {
    let mut cc = Consts::new().unwrap();
    snap();
    let op = choose(9);
    let w = any_mantissa::<N>();
    let e = any_exp();
    let s = any_sign();
    let ix = any_bool();
    let v = BigFloat::from_raw_parts(&w, N * W, s, e, ix);
    check(!v.is_nan(), 90);
    let p = N * W;
    let rm = RMS[choose(2) as usize];
    let c = &mut cc;
    let neg = s == Sign::Neg;
    let pow2 = zw(&w).eq(zu(1).shl(N * W - 1));
    let one = (e == 1) & pow2; // magnitude 1
    let above = (e > 1) | ((e == 1) & !pow2);
    let bad = match op {
        0 | 1 | 2 => above,
        3 => neg | !above & !one,
        4 | 5 | 6 | 7 => neg,
        _ => neg,
    };
    assume(bad);
    if op == 8 {
        // a power with a negative base needs an integer exponent
        let y = any_mantissa::<N>();
        let b = (N * W) as i32;
        let ye = [-b, -1, 0, 1, 2, W as i32 - 2, W as i32, W as i32 + 1, b - 1][choose(9) as usize];
        let yv = BigFloat::from_raw_parts(&y, N * W, any_sign(), ye, any_bool());
        let fb = if ye <= 0 { N * W } else if ye as usize >= N * W { 0 } else { N * W - ye as usize };
        assume(!zw(&y).low(fb).eq(zu(0)));
        let r = v.pow(&yv, p, rm, c);
        expect(&r, Ex::Nan(Some(Error::InvalidArgument)), 508);
        return;
    }
    let r = match op {
        0 => v.asin(p, rm, c),
        1 => v.acos(p, rm, c),
        2 => v.atanh(p, rm, c),
        3 => v.acosh(p, rm, c),
        4 => v.ln(p, rm, c),
        5 => v.log2(p, rm, c),
        6 => v.log10(p, rm, c),
        _ => if choose(2) == 0 {
            v.log(&BigFloat::from_word(2, W), p, rm, c)
        } else {
            BigFloat::from_word(2, W).log(&v, p, rm, c)
        },
    };
    expect(&r, Ex::Nan(Some(Error::InvalidArgument)), 500 + op as u32);
}

/// Arguments with an exact result.
fn fexact<const N: usize>() {
    let mut cc = Consts::new().unwrap();
    snap();
    let op = choose(11);
    let many = (op == 7) | (op == 9);
    let p = [1, W + 1, 3 * W][if many { choose(3) } else { 0 } as usize];
    let rm = if many { any_rm() } else { RMS[choose(2) as usize] };
    let c = &mut cc;
    let s = any_sign();
    let neg = s == Sign::Neg;
    let ix = any_bool();
    let mut one = BigFloat::from_words(&[1; N][..1], s, W as Exponent);
    one.set_inexact(ix);
    if op < 3 {
        // +-1
        let r = match op {
            0 => one.atanh(p, rm, c),
            1 => if neg { return } else { one.acosh(p, rm, c) },
            _ => if neg { return } else { one.acos(p, rm, c) },
        };
        expect(&r, if op == 0 { Ex::Inf(neg) } else { Ex::ZeroS(false) }, 600 + op as u32);
        check((op == 0) | (r.inexact() == ix) & (r.mantissa_max_bit_len() == Some(words_for(p) * W)), 600 + op as u32);
        return;
    }
    if op == 3 {
        if neg {
            return;
        }
        let r = match choose(3) {
            0 => one.ln(p, rm, c),
            1 => one.log2(p, rm, c),
            _ => {
                // log2 of a power of two, subnormal ones included
                let e = any_exp();
                let b = choose(N as u64 * W as u64 + 1) as usize;
                let mut w = [0; N];
                if b < N * W {
                    w[b / W] = 1 << (b % W);
                } else {
                    w[N - 1] = 1 << (W - 1);
                }
                let sub = b < N * W - 1;
                let e = if sub { EXPONENT_MIN } else { e };
                let v = BigFloat::from_raw_parts(&w, if b < N * W { b + 1 } else { N * W }, Sign::Pos, e, ix);
                check(!v.is_nan(), 90);
                policy(3);
                let r = v.log2(p, rm, c);
                policy(0);
                let t = e as i64 - 1 - (if b < N * W { N * W - 1 - b } else { 0 }) as i64;
                if t == 0 {
                    expect(&r, Ex::Zero, 603);
                } else if W == 64 {
                    check(r.is_negative() == (t < 0), 604);
                    check_exact(&r, zi(t), 0, 0, ix, 610);
                }
                return;
            }
        };
        expect(&r, Ex::ZeroS(false), 603);
        check(r.inexact() == ix, 605);
        return;
    }
    // powers
    let w = if (op == 7) & neg { pattern::<N>() } else { any_mantissa::<N>() };
    let e = any_exp();
    let xs = any_sign();
    let x = BigFloat::from_raw_parts(&w, N * W, xs, e, ix);
    check(!x.is_nan(), 90);
    let zero = BigFloat::from_raw_parts(&[0; N], 0, xs, 0, ix);
    let odd = choose(2) == 1;
    match op {
        4 => {
            // x^0
            let y = BigFloat::from_raw_parts(&[0; N], 0, s, 0, false);
            expect(&x.pow(&y, p, rm, c), Ex::One(false), 620);
            expect(&x.powi(0, p, rm), Ex::One(false), 621);
            expect(&zero.pow(&y, p, rm, c), Ex::One(false), 622);
        }
        5 => {
            // 0^y for an integer or fractional y
            let y = BigFloat::from_words(&[if odd { 3 } else { 4 }; 1], s, W as Exponent);
            let r = zero.pow(&y, p, rm, c);
            let rneg = odd & (xs == Sign::Neg);
            expect(&r, if neg { Ex::Inf(rneg) } else { Ex::ZeroS(rneg) }, 623);
            let y = BigFloat::from_words(&[if odd { 3 } else { 4 }; 1], s, W as Exponent - 3);
            expect(&zero.pow(&y, p, rm, c), if neg { Ex::Inf(false) } else { Ex::ZeroS(false) }, 624);
        }
        6 => {
            // (+-1)^y
            let ye = 5;
            let y = BigFloat::from_raw_parts(&w, N * W, xs, ye, false);
            let z = zw(&w).shl(5);
            let int = z.low(N * W).eq(zu(0));
            let yodd = z.bit(N * W);
            let r = one.pow(&y, p, rm, c);
            if !neg {
                expect(&r, Ex::One(false), 625);
            } else if int {
                expect(&r, Ex::One(yodd), 626);
            } else {
                expect(&r, Ex::Nan(Some(Error::InvalidArgument)), 627);
            }
        }
        7 => {
            // x^1, x^-1
            assume((e > -999) & (e < 999));
            let mut u = BigFloat::from_words(&[1], Sign::Pos, W as Exponent);
            let z = zw(&w);
            let z = if xs == Sign::Neg { z.neg() } else { z };
            if neg {
                if N > 1 {
                    return;
                }
                u.inv_sign();
                let r = x.pow(&u, p, rm, c);
                let q = BigFloat::from_words(&[1], Sign::Pos, W as Exponent).div(&x, words_for(p) * W, rm);
                let (m, n, sg, ex, i) = q.as_raw_parts().unwrap();
                check((n == m.len() * W) & same(&r, m, sg, ex, i), 628);
            } else {
                let r = x.pow(&u, p, rm, c);
                check_rounded(&r, z, -((N * W) as i64), e as i64, p, rm, ix, 630);
                let r = x.powi(1, p, rm);
                check_rounded(&r, z, -((N * W) as i64), e as i64, p, rm, ix, 640);
            }
        }
        8 => {
            // integer powers of zero
            let n = 1 + choose(3) as usize;
            expect(&zero.powi(n, p, rm), Ex::Zero, 650);
        }
        9 => {
            // hyperbolic tangent beyond the range of the exponential
            let r = BigFloat::from_raw_parts(&w, N * W, xs, EXPONENT_MAX, ix).tanh(p, rm, c);
            let k = words_for(p) * W + 9;
            let z = zu(1).shl(k).sub(zu(1));
            let z = if xs == Sign::Neg { z.neg() } else { z };
            check_rounded(&r, z, -(k as i64), 0, p, rm, false, 660);
        }
        _ => {
            // exponentials far out of range
            assume(e > W as i32);
            let r = x.exp(p, rm, c);
            if xs == Sign::Pos {
                expect(&r, Ex::Inf(false), 670);
            } else {
                check((r.is_zero() | r.is_subnormal()) & r.is_positive(), 671);
                check(r.inexact(), 672);
            }
            expect(&x.cosh(p, rm, c), Ex::Inf(false), 673);
            expect(&x.sinh(p, rm, c), Ex::Inf(xs == Sign::Neg), 674);
        }
    }
    cover(true, 600 + op as u32);
}

harnesses! {
    h_tiny_1 => tiny::<1>(0);
    h_tiny_1t => tiny::<1>(1);
    h_tiny_1e => tiny::<1>(2);
    h_tiny_1s => tiny::<1>(3);
    h_tiny_2 => tiny::<2>(0);
    h_tiny_2t => tiny::<2>(1);
    h_tiny_2e => tiny::<2>(2);
    h_tiny_2s => tiny::<2>(3);
    h_fspecial_1 => fspecial::<1>();
    h_fdomain_1 => fdomain::<1>();
    h_fdomain_2 => fdomain::<2>();
    h_fexact_1 => fexact::<1>();
    h_fexact_2 => fexact::<2>();
    h_special2_1 => special2::<1>();
    h_special2_2 => special2::<2>();
    h_special1_1 => special1::<1>();
    h_special1_2 => special1::<2>();
    h_badprec => badprec();
    h_from_8 => from_8();
    h_from_16 => from_16();
    h_from_32 => from_32();
    h_from_64 => from_64();
    h_from_128 => from_128();
    h_from_f32 => from_float(false);
    h_from_f64 => from_float(true);
}
