//! Addition, subtraction, multiplication, division: correct rounding, exact variants, range limits.
use crate::gen::*;
use crate::vx::*;

fn pick<T: Copy>(v: &[T]) -> T {
    v[choose(v.len() as u64) as usize]
}

/// A normalised number in the middle of the exponent range, together with its exact value.
fn mid<const N: usize>(e: i64, base: Exponent) -> Num<N> {
    num_of::<N>(NORMAL, any_sign(), (e + base as i64) as Exponent, any_bool())
}
/// Any exponent away from the limits.
fn mid_base() -> Exponent {
    let e = any_exp();
    assume(e > EXPONENT_MIN + 2000 && e < EXPONENT_MAX - 2000);
    e
}
fn signed(z: Z, s: Sign) -> Z {
    if s == Sign::Neg {
        z.neg()
    } else {
        z
    }
}

/// Exact sum as z * 2^(base + k), both operands given as 0.m * 2^(e + base).
fn exact_sum(a: &[Word], s1: Sign, e1: i64, b: &[Word], s2: Sign, e2: i64) -> (Z, i64) {
    let k1 = e1 - (a.len() * W) as i64;
    let k2 = e2 - (b.len() * W) as i64;
    let k = k1.min(k2);
    let z1 = signed(zw(a).shl((k1 - k) as usize), s1);
    let z2 = signed(zw(b).shl((k2 - k) as usize), s2);
    (z1.add(z2), k)
}
fn flip(s: Sign, c: bool) -> Sign {
    if c {
        s.invert()
    } else {
        s
    }
}

fn add_nm<const N: usize, const M: usize>(ds: &[i64], ps: &[usize], sub: bool) {
    let base = mid_base();
    let d = pick(ds);
    let p = pick(ps);
    let rm = any_rm();
    let a = mid::<N>(d, base);
    let b = mid::<M>(0, base);
    policy(3);
    let r = if sub { a.v.sub(&b.v, p, rm) } else { a.v.add(&b.v, p, rm) };
    policy(0);
    let (z, k) = exact_sum(&a.w, a.s, d, &b.w, flip(b.s, sub), 0);
    check_rounded(&r, z, k, base as i64, p, rm, a.inexact | b.inexact, 100);
}

fn addfull_nm<const N: usize, const M: usize>(ds: &[i64]) {
    let base = mid_base();
    let d = pick(ds);
    let sub = choose(2) == 1;
    let a = mid::<N>(d, base);
    let b = mid::<M>(0, base);
    policy(3);
    let r = if sub { a.v.sub_full_prec(&b.v) } else { a.v.add_full_prec(&b.v) };
    policy(0);
    let (z, k) = exact_sum(&a.w, a.s, d, &b.w, flip(b.s, sub), 0);
    check_exact(&r, z, k, base as i64, a.inexact | b.inexact, 150);
}

/// Exact operations with a zero operand.
fn full_zero<const N: usize>() {
    let base = mid_base();
    let a = mid::<N>(0, base);
    let z = num_of::<1>(ZERO, any_sign(), 0, false);
    policy(3);
    let r = match choose(4) {
        0 => a.v.add_full_prec(&z.v),
        1 => z.v.add_full_prec(&a.v),
        2 => a.v.sub_full_prec(&z.v),
        _ => z.v.sub_full_prec(&a.v).neg(),
    };
    let m = if choose(2) == 0 { a.v.mul_full_prec(&z.v) } else { z.v.mul_full_prec(&a.v) };
    policy(0);
    check_exact(&r, signed(zw(&a.w), a.s), -((N * W) as i64), base as i64, a.inexact, 170);
    check(m.is_zero(), 190);
    cover(true, 190);
}

fn mul_nm<const N: usize, const M: usize>(ps: &[usize]) {
    let base = mid_base();
    let p = pick(ps);
    let rm = any_rm();
    let a = mid::<N>(5, base);
    let b = num_of::<M>(NORMAL, any_sign(), 0, any_bool());
    policy(3);
    let r = a.v.mul(&b.v, p, rm);
    policy(0);
    let k = 5 - (N * W) as i64 - (M * W) as i64;
    // the product in the order the schoolbook algorithm forms it
    let x = if N <= M { zmulw(&a.w, &b.w) } else { zmulw(&b.w, &a.w) };
    let x = if N == M { zmulw(&b.w, &a.w) } else { x };
    check_rounded(&r, signed(x, flip(a.s, b.s == Sign::Neg)), k, base as i64, p, rm, a.inexact | b.inexact, 200);
}
fn mulfull_nm<const N: usize, const M: usize>() {
    let base = mid_base();
    let a = mid::<N>(5, base);
    let b = num_of::<M>(NORMAL, any_sign(), 0, any_bool());
    policy(3);
    let r = a.v.mul_full_prec(&b.v);
    policy(0);
    let k = 5 - (N * W) as i64 - (M * W) as i64;
    let x = if N == M { zmulw(&b.w, &a.w) } else if N < M { zmulw(&a.w, &b.w) } else { zmulw(&b.w, &a.w) };
    check_exact(&r, signed(x, flip(a.s, b.s == Sign::Neg)), k, base as i64, a.inexact | b.inexact, 250);
}

/// PAT: the divisor is one of a few fixed mantissas
fn div_nm<const N: usize, const M: usize, const PAT: bool>(ps: &[usize]) {
    let base = mid_base();
    let p = pick(ps);
    let rm = any_rm();
    let a = mid::<N>(5, base);
    let b = if PAT { num_words(pattern::<M>(), any_sign(), 0, any_bool()) } else { num_of::<M>(NORMAL, any_sign(), 0, any_bool()) };
    policy(3);
    let r = a.v.div(&b.v, p, rm);
    policy(0);
    let k = 5 - (N * W) as i64 + (M * W) as i64;
    check_quot(&r, zw(&a.w), zw(&b.w), a.s != b.s, k, base as i64, p, rm, a.inexact | b.inexact, 300);
}
/// Dividends for which the quotient is nearly, but not exactly, a number of p + 1 bits; fixed divisors.
fn div_hard<const N: usize, const M: usize>(p: usize, t: usize) {
    let j = choose(2) as usize;
    let y = num_words(pattern::<M>(), Sign::Pos, 0, false);
    let a = num_words(any_mantissa::<N>(), any_sign(), 5, false);
    let s = zsym(p + 1);
    let x = zw(&a.w).shl(M * W + p + j - N * W);
    let ys = zw(&y.w).mul(s);
    let d = zu(1).shl(t);
    assume(x.lt(ys.add(d)) & ys.lt(x.add(d)) & !x.eq(ys));
    div_check(&a, &y, p);
}
/// The same, for one distance at a time.
fn div_near<const N: usize, const M: usize>(p: usize, rs: &[i64]) {
    let j = choose(2) as usize;
    let y = num_words(pattern::<M>(), Sign::Pos, 0, false);
    let a = num_words(any_mantissa::<N>(), any_sign(), 5, false);
    let r = pick(rs);
    assume(zw(&y.w).mul(zsym(p + 1)).add(zi(r)).eq(zw(&a.w).shl(M * W + p + j - N * W)));
    div_check(&a, &y, p);
}
fn div_check<const N: usize, const M: usize>(a: &Num<N>, y: &Num<M>, p: usize) {
    solve(300);
    let rm = any_rm();
    policy(3);
    let r = a.v.div(&y.v, p, rm);
    policy(0);
    let k = 5 - (N * W) as i64 + (M * W) as i64;
    check_quot(&r, zw(&a.w), zw(&y.w), a.s == Sign::Neg, k, 0, p, rm, false, 360);
}
/// The dividend is fixed, the divisor varies in its lowest bits.
fn div_low<const N: usize, const M: usize>(bits: u32, ps: &[usize], rms: &[RoundingMode]) {
    let p = pick(ps);
    let rm = pick(rms);
    let a = num_words(pattern::<N>(), if rms.len() < 6 { Sign::Pos } else { any_sign() }, 5, false);
    let mut w = pattern::<M>();
    w[0] ^= sym(bits) as Word;
    let b = num_words(w, any_sign(), 0, false);
    policy(3);
    let r = a.v.div(&b.v, p, rm);
    policy(0);
    let k = 5 - (N * W) as i64 + (M * W) as i64;
    check_quot(&r, zw(&a.w), zw(&b.w), a.s != b.s, k, 0, p, rm, false, 330);
}
/// 1 / b, with b given by an arbitrary exponent
fn recip_n<const N: usize>(bits: u32, ps: &[usize], rms: &[RoundingMode]) {
    let p = pick(ps);
    let rm = pick(rms);
    let mut w = pattern::<N>();
    w[0] ^= sym(bits) as Word;
    let e = pick(&[0, -7, 1000]);
    let b = num_words(w, any_sign(), e, any_bool());
    policy(3);
    let r = b.v.reciprocal(p, rm);
    policy(0);
    check_quot(&r, zu(1), zw(&b.w), b.s == Sign::Neg, (N * W) as i64 - e as i64, 0, p, rm, b.inexact, 350);
}

// ------------------------------------------------------------------ limits of the exponent range

/// A nonzero operand: near a limit of the exponent range, or of moderate size.
fn edge<const N: usize>(es: &[Exponent], sub: bool) -> Num<N> {
    if sub && choose(2) == 0 {
        num_of::<N>(SUBNORMAL, any_sign(), 0, any_bool())
    } else {
        num_of::<N>(NORMAL, any_sign(), pick(es), any_bool())
    }
}
const LO: Exponent = EXPONENT_MIN;
const HI: Exponent = EXPONENT_MAX;

fn lim_add<const N: usize, const M: usize>(e1: &[Exponent], e2: &[Exponent], ps: &[usize], sub: bool) {
    let p = pick(ps);
    let rm = any_rm();
    let a = edge::<N>(e1, sub);
    let b = edge::<M>(e2, sub);
    let op = choose(2) == 1;
    policy(3);
    let r = if op { a.v.sub(&b.v, p, rm) } else { a.v.add(&b.v, p, rm) };
    policy(0);
    let (z, k) = exact_sum(&a.w, a.s, a.e as i64, &b.w, flip(b.s, op), b.e as i64);
    check_ranged(&r, z, k, zu(1), false, p, rm, a.inexact | b.inexact, 400);
}
fn lim_mul<const N: usize, const M: usize>(e1: &[Exponent], e2: &[Exponent], ps: &[usize], sub: bool) {
    let p = pick(ps);
    let rm = any_rm();
    let a = edge::<N>(e1, sub);
    let b = num_of::<M>(NORMAL, any_sign(), pick(e2), any_bool());
    policy(3);
    let r = a.v.mul(&b.v, p, rm);
    policy(0);
    let k = a.e as i64 + b.e as i64 - ((N + M) * W) as i64;
    let z = signed(zw(&a.w).mul(zw(&b.w)), flip(a.s, b.s == Sign::Neg));
    check_ranged(&r, z, k, zu(1), false, p, rm, a.inexact | b.inexact, 420);
}
fn lim_div<const N: usize, const M: usize>(e1: &[Exponent], e2: &[Exponent], ps: &[usize], sub: bool) {
    let p = pick(ps);
    let rm = any_rm();
    let a = edge::<N>(e1, sub);
    let b = num_words(pattern::<M>(), any_sign(), pick(e2), any_bool());
    policy(3);
    let r = a.v.div(&b.v, p, rm);
    policy(0);
    let k = a.e as i64 - b.e as i64 - (N * W) as i64 + (M * W) as i64;
    let z = signed(zw(&a.w), flip(a.s, b.s == Sign::Neg));
    check_ranged(&r, z, k, zw(&b.w), true, p, rm, a.inexact | b.inexact, 440);
}

const EVENUP: [RoundingMode; 2] = [RoundingMode::ToEven, RoundingMode::Up];
const fn range<const N: usize>(from: i64) -> [i64; N] {
    let mut r = [0; N];
    let mut i = 0;
    while i < N {
        r[i] = from + i as i64;
        i += 1;
    }
    r
}

harnesses! {
    h_add_11 => add_nm::<1, 1>(&range::<41>(-20), &[W, 2 * W, 3 * W], false);
    h_sub_11 => add_nm::<1, 1>(&range::<41>(-20), &[W, 2 * W], true);
    h_add_22 => add_nm::<2, 2>(&range::<37>(-18), &[W, 2 * W, 3 * W], false);
    h_add_21 => add_nm::<2, 1>(&range::<37>(-18), &[W, 2 * W], false);
    h_add_12 => add_nm::<1, 2>(&range::<37>(-18), &[W, 3 * W], false);
    h_add_22q => add_nm::<2, 2>(&[-9, 1], &[W], false);
    h_sub_32q => add_nm::<3, 2>(&[10], &[2 * W], true);
    h_add_31 => add_nm::<3, 1>(&range::<61>(-30), &[W, 2 * W, 3 * W], false);
    h_add_13 => add_nm::<1, 3>(&range::<61>(-30), &[W, 2 * W, 4 * W], false);
    h_add_33 => add_nm::<3, 3>(&range::<61>(-30), &[W, 2 * W, 3 * W, 4 * W], false);
    h_add_11s => add_nm::<1, 1>(&[-65, -64, -63, -2, 0, 1, 31, 64, 128], &[W, 2 * W], false);
    h_add_21s => add_nm::<2, 1>(&[-66, -64, -1, 0, 1, 63, 64, 65, 129], &[W, 2 * W], false);
    h_add_1p => add_nm::<1, 1>(&[-3, 0, 1, 7], &[1, 5, W + 1], false);
    h_addfull_11 => addfull_nm::<1, 1>(&range::<41>(-20));
    h_addfull_21 => addfull_nm::<2, 1>(&range::<41>(-20));
    h_addfull_22 => addfull_nm::<2, 2>(&range::<41>(-20));
    h_addfull_11s => addfull_nm::<1, 1>(&[-65, -64, -1, 0, 1, 64, 100]);
    h_full_zero_1 => full_zero::<1>();
    h_full_zero_2 => full_zero::<2>();
    h_mul_11 => mul_nm::<1, 1>(&[W, 2 * W]);
    h_mul_21 => mul_nm::<2, 1>(&[W, 2 * W, 3 * W]);
    h_mul_12 => mul_nm::<1, 2>(&[W, 2 * W, 4 * W]);
    h_mul_22 => mul_nm::<2, 2>(&[W, 2 * W, 3 * W]);
    h_mul_33 => mul_nm::<3, 3>(&[2 * W, 3 * W, 6 * W]);
    h_mulfull_11 => mulfull_nm::<1, 1>();
    h_mulfull_21 => mulfull_nm::<2, 1>();
    h_mulfull_12 => mulfull_nm::<1, 2>();
    h_mulfull_22 => mulfull_nm::<2, 2>();
    h_mulfull_32 => mulfull_nm::<3, 2>();
    h_subfull_33 => addfull_nm::<3, 3>(&[0, 1]);
    h_subfull_42 => addfull_nm::<4, 2>(&[0, 1]);
    h_div_11h => div_hard::<1, 1>(W, 4);
    h_div_22n => div_near::<2, 2>(2 * W, &[1, -1, 2, -3]);
    h_div_33n => div_near::<3, 3>(3 * W, &[1, -1]);
    h_div_44n => div_near::<4, 4>(4 * W, &[1, -1]);
    h_div_12h => div_hard::<1, 2>(2 * W, W + 3);
    h_div_22h => div_hard::<2, 2>(2 * W, 4);
    h_div_33h => div_hard::<3, 3>(3 * W, 4);
    h_div_23h => div_hard::<2, 3>(2 * W, W + 4);
    h_div_11 => div_nm::<1, 1, false>(&[W]);
    h_div_11p => div_nm::<1, 1, true>(&[W, 2 * W]);
    h_div_21p => div_nm::<2, 1, true>(&[W, 2 * W]);
    h_div_12p => div_nm::<1, 2, true>(&[W, 2 * W]);
    h_div_22p => div_nm::<2, 2, true>(&[W, 2 * W]);
    h_div_32p => div_nm::<3, 2, true>(&[W, 2 * W]);
    h_div_23p => div_nm::<2, 3, true>(&[W, 2 * W]);
    h_div_11l => div_low::<1, 1>(4, &[2 * W], &RMS);
    h_div_22l => div_low::<2, 2>(4, &[W, 2 * W], &RMS);
    h_div_32l => div_low::<3, 2>(4, &[W, 2 * W], &RMS);
    h_div_11q => div_low::<1, 1>(5, &[W, 2 * W], &EVENUP);
    h_div_22q => div_low::<2, 2>(3, &[2 * W], &EVENUP);
    h_div_31q => div_low::<3, 1>(4, &[W, 3 * W], &EVENUP);
    h_div_32q => div_low::<3, 2>(3, &[2 * W], &EVENUP);
    h_recip_1q => recip_n::<1>(4, &[2 * W], &EVENUP);
    h_recip_2q => recip_n::<2>(3, &[2 * W], &EVENUP);
    h_recip_1 => recip_n::<1>(4, &[W, 2 * W], &RMS);
    h_recip_2 => recip_n::<2>(4, &[W, 2 * W], &RMS);
    h_lim_add_lo => lim_add::<1, 1>(&[LO, LO + 1, LO + 7], &[LO, LO + 2, LO + 12], &[W, 2 * W], true);
    h_lim_add_lo2 => lim_add::<2, 1>(&[LO, LO + 3], &[LO, LO + 1, LO + 9], &[W, 2 * W], true);
    h_lim_add_hi => lim_add::<1, 1>(&[HI, HI - 1, HI - 8], &[HI, HI - 1, HI - 9], &[W, 2 * W], false);
    h_lim_add_hi2 => lim_add::<2, 1>(&[HI, HI - 8], &[HI, HI - 9], &[W, 2 * W], false);
    h_lim_mul_lo => lim_mul::<1, 1>(&[-1073741824, LO + 3], &[-1073741824 - 3, -1073741824, -1073741824 + 4, 0, -9], &[W, 2 * W], true);
    h_lim_mul_lo2 => lim_mul::<2, 1>(&[-1073741824], &[-1073741824 - 11, -1073741824 - 1], &[W, 2 * W], true);
    h_lim_mul_hi => lim_mul::<1, 1>(&[1 << 30, HI], &[1 << 30, (1 << 30) - 1, 0, 1], &[W, 2 * W], false);
    h_lim_div_lo => lim_div::<1, 1>(&[LO + 3, -1073741824], &[4, 1 << 30, (1 << 30) + 6], &[W, 2 * W], true);
    h_lim_div_hi => lim_div::<1, 1>(&[HI, 1 << 30], &[0, -1, -(1 << 30)], &[W, 2 * W], false);
}
