//! Comparison, sign operations, construction, exponent access.
use crate::gen::*;
use crate::vx::*;
use astro_float_num::{Error, INF_NEG, INF_POS, NAN};

fn sgw(v: Option<astro_i>) -> Option<i32> {
    v.map(|x| (x > 0) as i32 - (x < 0) as i32)
}
#[allow(non_camel_case_types)]
#[cfg(not(astro_verif_w8))]
type astro_i = i128;
#[allow(non_camel_case_types)]
#[cfg(astro_verif_w8)]
type astro_i = i16;

fn cmp_nm<const N: usize, const M: usize>() {
    let a = any_num::<N>(3);
    let b = any_num::<M>(3);
    let c = spec_cmp(&a.w, a.s, a.e, &b.w, b.s, b.e);
    let ca = spec_abs_cmp(&a.w, a.e, &b.w, b.e);
    policy(1);
    check(sgw(a.v.cmp(&b.v)) == Some(c), 1);
    check(sgw(b.v.cmp(&a.v)) == Some(-c), 2);
    check(sgw(a.v.abs_cmp(&b.v)) == Some(ca), 3);
    check((a.v == b.v) == (c == 0), 4);
    check(a.v.partial_cmp(&b.v) == Some(c.cmp(&0)), 5);
    check((a.v < b.v) == (c < 0), 6);
    check((a.v <= b.v) == (c <= 0), 7);
    policy(0);
    cover(c > 0, 1);
    cover(c == 0, 2);
    cover(c < 0, 3);
    cover(ca != c, 4);
}

/// max, min and clamp return one of the arguments, the right one, unchanged.
fn minmax_nm<const N: usize, const M: usize>() {
    let a = any_num::<N>(2);
    let b = any_num::<M>(2);
    let c = spec_cmp(&a.w, a.s, a.e, &b.w, b.s, b.e);
    policy(1);
    let mx = a.v.max(&b.v);
    let mn = a.v.min(&b.v);
    policy(0);
    let isa = same(&mx, &a.w, a.s, a.e, a.inexact);
    let isb = same(&mx, &b.w, b.s, b.e, b.inexact);
    check(if c < 0 { isb } else { isa | (isb & (c == 0)) }, 11);
    let isa = same(&mn, &a.w, a.s, a.e, a.inexact);
    let isb = same(&mn, &b.w, b.s, b.e, b.inexact);
    check(if c > 0 { isb } else { isa | (isb & (c == 0)) }, 12);
    cover(c > 0, 11);
    cover(c < 0, 12);
}

fn clamp_nm<const N: usize>() {
    let a = any_num::<N>(2);
    let b = any_num::<N>(2);
    let x = any_num::<N>(2);
    let c = spec_cmp(&a.w, a.s, a.e, &b.w, b.s, b.e);
    let xa = spec_cmp(&x.w, x.s, x.e, &a.w, a.s, a.e);
    let xb = spec_cmp(&x.w, x.s, x.e, &b.w, b.s, b.e);
    policy(1);
    let r = x.v.clamp(&a.v, &b.v);
    policy(0);
    if c > 0 {
        check(r.is_nan(), 13);
        cover(true, 13);
    } else if xa < 0 {
        check(same(&r, &a.w, a.s, a.e, a.inexact), 14);
        cover(true, 14);
    } else if xb > 0 {
        check(same(&r, &b.w, b.s, b.e, b.inexact), 15);
        cover(true, 15);
    } else {
        check(same(&r, &x.w, x.s, x.e, x.inexact), 16);
        cover(true, 16);
    }
}

fn special(k: u64) -> BigFloat {
    match k {
        0 => NAN,
        1 => BigFloat::nan(Some(Error::InvalidArgument)),
        2 => INF_POS,
        _ => INF_NEG,
    }
}

/// Comparison with infinities and NaN.
fn cmp_special<const N: usize>() {
    let k = choose(4);
    let x = special(k);
    if choose(2) == 0 {
        let a = any_num::<N>(3);
        let c = match k {
            0 | 1 => None,
            2 => Some(1),
            _ => Some(-1),
        };
        check(sgw(x.cmp(&a.v)) == c, 21);
        check(sgw(a.v.cmp(&x)) == c.map(|v| -v), 22);
        check(sgw(x.abs_cmp(&a.v)) == c.map(|_| 1), 23);
        check(sgw(a.v.abs_cmp(&x)) == c.map(|_| -1), 24);
        check(x != a.v, 25);
        check(x.partial_cmp(&a.v) == c.map(|v: i32| v.cmp(&0)), 26);
        let mx = x.max(&a.v);
        let mn = a.v.min(&x);
        if k < 2 {
            check(mx.is_nan() & mn.is_nan(), 27);
            check(a.v.max(&x).is_nan() & x.min(&a.v).is_nan(), 28);
            check(a.v.clamp(&x, &x).is_nan() & x.clamp(&a.v, &a.v).is_nan() & a.v.clamp(&a.v, &x).is_nan(), 29);
        } else if k == 2 {
            check(mx.is_inf_pos() & same(&mn, &a.w, a.s, a.e, a.inexact), 30);
            check(same(&a.v.clamp(&INF_NEG, &x), &a.w, a.s, a.e, a.inexact), 31);
        } else {
            check(mn.is_inf_neg() & same(&mx, &a.w, a.s, a.e, a.inexact), 32);
            check(same(&x.clamp(&a.v, &INF_POS), &a.w, a.s, a.e, a.inexact), 33);
        }
        cover(true, 21);
    } else {
        let j = choose(4);
        let y = special(j);
        let val = |k: u64| if k == 2 { 1 } else { -1 };
        let c = if k < 2 || j < 2 { None } else { Some((val(k) > val(j)) as i32 - (val(k) < val(j)) as i32) };
        check(sgw(x.cmp(&y)) == c, 34);
        check(sgw(x.abs_cmp(&y)) == c.map(|_| 0), 35);
        check((x == y) == (c == Some(0)), 36);
        check(x.partial_cmp(&y) == c.map(|v| v.cmp(&0)), 37);
        cover(true, 22);
    }
}

// ------------------------------------------------------------------ sign operations and accessors

fn signs<const N: usize>() {
    let a = any_num::<N>(3);
    let inv = if a.s == Sign::Neg { Sign::Pos } else { Sign::Neg };
    check(same(&a.v.neg(), &a.w, inv, a.e, a.inexact), 41);
    check(same(&-&a.v, &a.w, inv, a.e, a.inexact), 42);
    check(same(&a.v.abs(), &a.w, Sign::Pos, a.e, a.inexact), 43);
    check(same(&a.v.clone(), &a.w, a.s, a.e, a.inexact), 44);
    let mut b = a.v.clone();
    b.inv_sign();
    check(same(&b, &a.w, inv, a.e, a.inexact), 45);
    let t = any_sign();
    b.set_sign(t);
    check(same(&b, &a.w, t, a.e, a.inexact), 46);
    let f = any_bool();
    b.set_inexact(f);
    check(same(&b, &a.w, t, a.e, f), 47);
    check(b.inexact() == f, 48);
    let z = bits_of(&a.w) == 0;
    let sub = !z & (a.w[N - 1] >> (W - 1) == 0);
    check(a.v.is_zero() == z, 49);
    check(z | (a.v.is_subnormal() == sub), 50);
    check(a.v.is_positive() == (a.s == Sign::Pos), 51);
    check(a.v.is_negative() == (a.s == Sign::Neg), 52);
    check(a.v.sign() == Some(a.s), 53);
    check(a.v.exponent() == Some(a.e), 54);
    check(a.v.precision() == Some(bits_of(&a.w)), 55);
    check(a.v.mantissa_max_bit_len() == Some(N * W), 56);
    let c = a.v.classify();
    use core::num::FpCategory::*;
    check(c == if z { Zero } else if sub { Subnormal } else { Normal }, 57);
    check(!a.v.is_nan() & !a.v.is_inf() & !a.v.is_inf_pos() & !a.v.is_inf_neg() & a.v.err().is_none(), 58);
    let sn = a.v.signum();
    if !z {
        let one = BigFloat::from_word(1, 1);
        check(sgw(sn.abs_cmp(&one)) == Some(0), 59);
        check(sn.sign() == Some(a.s), 60);
    }
    cover(z, 41);
    cover(sub, 42);
    cover(!z & !sub, 43);
}

/// from_raw_parts accepts exactly the canonical representations and as_raw_parts gives them back.
fn rawparts<const N: usize>() {
    let w = any_words::<N>();
    let e = any_exp();
    let s = any_sign();
    let ix = any_bool();
    let n = sym(16) as usize;
    policy(1);
    let v = BigFloat::from_raw_parts(&w, n, s, e, ix);
    policy(0);
    let b = bits_of(&w);
    let ok = (n == b) & ((b == N * W) | (b == 0) | (e == EXPONENT_MIN));
    check(v.is_nan() != ok, 61);
    if ok {
        let z = b == 0;
        check(same(&v, &w, s, if z { 0 } else { e }, ix), 62);
        check(canonical(&v), 63);
    } else {
        check(v.err() == Some(Error::InvalidArgument), 64);
    }
    cover(ok, 61);
    cover(!ok, 62);
}

/// from_words takes any mantissa and gives the canonical number of the same value.
fn fromwords<const N: usize>() {
    let w = any_words::<N>();
    let e = any_exp();
    let s = any_sign();
    policy(3);
    let v = BigFloat::from_words(&w, s, e);
    policy(0);
    check(canonical(&v), 71);
    let b = bits_of(&w);
    match v.as_raw_parts() {
        None => check(false, 72),
        Some((m, n, s1, e1, ix)) => {
            check(m.len() == N, 73);
            check((s1 == s) & !ix, 74);
            check((n == 0) == (b == 0), 75);
            if b != 0 {
                // 0.m1 * 2^e1 == 0.w * 2^e
                let sh = concretize((e as i64 - e1 as i64) as u64) as usize;
                check(sh < N * W, 76);
                check(zw(m).eq(zw(&w).shl(sh)), 77);
                cover(sh > 0, 71);
                cover(n < N * W, 72);
            }
        }
    }
}

fn setexp<const N: usize>() {
    let a = any_num::<N>(3);
    let e = any_exp();
    let mut v = a.v.clone();
    policy(3);
    v.set_exponent(e);
    policy(0);
    let z = bits_of(&a.w) == 0;
    let sub = !z & (a.w[N - 1] >> (W - 1) == 0);
    if z {
        check(same(&v, &a.w, a.s, 0, a.inexact), 81);
    } else if !sub {
        check(same(&v, &a.w, a.s, e, a.inexact), 82);
        cover(true, 81);
    } else {
        // a subnormal number is scaled by 2^(e - EXPONENT_MIN)
        check(canonical(&v), 83);
        let (m, _, s, e1, ix) = v.as_raw_parts().unwrap();
        check((m.len() == N) & (s == a.s) & (ix == a.inexact), 84);
        let sh = concretize((e as i64 - e1 as i64) as u64) as i64;
        check((sh >= 0) & (sh < (N * W) as i64), 85);
        check(zw(m).eq(zw(&a.w).shl(sh as usize)), 86);
        cover(sh > 0, 82);
    }
}

harnesses! {
    h_cmp_11 => cmp_nm::<1, 1>();
    h_cmp_12 => cmp_nm::<1, 2>();
    h_cmp_22 => cmp_nm::<2, 2>();
    h_cmp_32 => cmp_nm::<3, 2>();
    h_minmax_11 => minmax_nm::<1, 1>();
    h_minmax_21 => minmax_nm::<2, 1>();
    h_clamp_1 => clamp_nm::<1>();
    h_cmp_special_1 => cmp_special::<1>();
    h_cmp_special_2 => cmp_special::<2>();
    h_signs_1 => signs::<1>();
    h_signs_3 => signs::<3>();
    h_raw_1 => rawparts::<1>();
    h_raw_3 => rawparts::<3>();
    h_fromwords_1 => fromwords::<1>();
    h_fromwords_2 => fromwords::<2>();
    h_setexp_1 => setexp::<1>();
    h_setexp_2 => setexp::<2>();
}
