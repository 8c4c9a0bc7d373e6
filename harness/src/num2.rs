//! Roots, remainder, precision changes, rounding to integers.
use crate::gen::*;
use crate::vx::*;

fn pick<T: Copy>(v: &[T]) -> T {
    v[choose(v.len() as u64) as usize]
}

fn zpow(z: Z, n: usize) -> Z {
    let mut r = z;
    for _ in 1..n {
        r = r.mul(z);
    }
    r
}

/// Checks that the positive `r` is the `n`-th root of x * 2^k rounded to precision `p`.
#[allow(clippy::too_many_arguments)]
fn check_root(r: &BigFloat, n: usize, x: Z, k: i64, neg: bool, p: usize, rm: RoundingMode, ix: bool, id: u32) {
    let (m, nb, s, e, inexact) = match r.as_raw_parts() {
        Some(v) => v,
        None => {
            check(false, id);
            return;
        }
    };
    let nw = words_for(p);
    check((m.len() == nw) & (nb == nw * W) & (m[nw - 1] >> (W - 1) == 1), id + 1);
    check((s == Sign::Neg) == neg, id + 2);
    let e = concretize(e as i64 as u64) as i64;
    // x * 2^k against (4 rz * 2^(kr - 2))^n
    let kr = n as i64 * (e - nb as i64 - 2);
    let c = k.min(kr);
    check((k - c < 9999) & (kr - c < 9999), id + 3);
    let xx = x.shl((k - c) as usize);
    let rz = zw(m);
    let f = |j: i64| zpow(rz.shl(2).add(zi(j)), n).shl((kr - c) as usize);
    let pow2 = rz.eq(zu(1).shl(nb - 1));
    let at = f(0);
    let odd = rz.bit(0);
    let ok = match dir(rm, neg) {
        Dir::Floor => at.le(xx) & xx.lt(f(4)),
        Dir::Ceil => xx.le(at) & f(-4).lt(xx) & (!pow2 | f(-2).lt(xx)),
        d @ (Dir::Even | Dir::Odd) => {
            let hi = f(2);
            let lo = f(-2);
            let lo1 = f(-1);
            let tie = xx.eq(hi) | (!pow2 & xx.eq(lo)) | (pow2 & xx.eq(lo1));
            xx.le(hi) & lo.le(xx) & (!pow2 | lo1.le(xx)) & (!tie | (odd == (d == Dir::Odd)))
        }
        Dir::Loose => f(-4).lt(xx) & xx.lt(f(4)),
    };
    check(ok, id + 4);
    let lost = !xx.eq(at);
    check(inexact == (ix | lost), id + 5);
    cover(lost, id);
    cover(!lost, id + 1);
}

fn sqrt_n<const N: usize>(ps: &[usize], es: &[Exponent], sub: bool, rms: &[RoundingMode]) {
    let p = pick(ps);
    let rm = pick(rms);
    let a = if sub { num_of::<N>(SUBNORMAL, Sign::Pos, 0, any_bool()) } else { num_of::<N>(NORMAL, Sign::Pos, pick(es), any_bool()) };
    policy(3);
    let r = a.v.sqrt(p, rm);
    policy(0);
    check_root(&r, 2, zw(&a.w), a.e as i64 - (N * W) as i64, false, p, rm, a.inexact, 500);
}
/// Multiword radicands that vary in a few bits.
fn sqrt_low<const N: usize>(bits: u32, ps: &[usize], es: &[Exponent], rms: &[RoundingMode]) {
    let p = pick(ps);
    let rm = pick(rms);
    let mut w = pattern::<N>();
    w[0] ^= sym(bits) as Word;
    let a = num_words(w, Sign::Pos, pick(es), false);
    policy(3);
    let r = a.v.sqrt(p, rm);
    policy(0);
    check_root(&r, 2, zw(&a.w), a.e as i64 - (N * W) as i64, false, p, rm, a.inexact, 510);
}
fn cbrt_n<const N: usize>(ps: &[usize], es: &[Exponent], sub: bool, rms: &[RoundingMode]) {
    let p = pick(ps);
    let rm = pick(rms);
    let s = if rms.len() < 6 { Sign::Neg } else { any_sign() };
    let a = if sub { num_of::<N>(SUBNORMAL, s, 0, any_bool()) } else { num_of::<N>(NORMAL, s, pick(es), any_bool()) };
    policy(3);
    let r = a.v.cbrt(p, rm);
    policy(0);
    check_root(&r, 3, zw(&a.w), a.e as i64 - (N * W) as i64, a.s == Sign::Neg, p, rm, a.inexact, 520);
}
fn cbrt_low<const N: usize>(bits: u32, ps: &[usize], es: &[Exponent], rms: &[RoundingMode]) {
    let p = pick(ps);
    let rm = pick(rms);
    let mut w = pattern::<N>();
    w[0] ^= sym(bits) as Word;
    let a = num_words(w, any_sign(), pick(es), false);
    policy(3);
    let r = a.v.cbrt(p, rm);
    policy(0);
    check_root(&r, 3, zw(&a.w), a.e as i64 - (N * W) as i64, a.s == Sign::Neg, p, rm, a.inexact, 530);
}
/// Operands whose root is nearly, but not exactly, a number of p + 1 bits (a representable number or the middle of two).
fn root_hard<const N: usize>(n: usize, p: usize, t: usize) {
    let j = 1 + choose(n as u64) as usize;
    let sh = (n * p + j).wrapping_sub(N * W);
    let a = num_of::<N>(NORMAL, Sign::Pos, j as Exponent, false);
    let s = zsym(p + 1);
    let x = zw(&a.w).shl(sh);
    let y = zpow(s, n);
    let d = zu(1).shl(t);
    assume(x.lt(y.add(d)) & y.lt(x.add(d)) & !x.eq(y));
    solve(200);
    root_check(&a, n, N, p);
}
fn root_check<const N: usize>(a: &Num<N>, n: usize, len: usize, p: usize) {
    let rm = any_rm();
    if n == 2 {
        policy(3);
        let r = a.v.sqrt(p, rm);
        policy(0);
        check_root(&r, 2, zw(&a.w), a.e as i64 - (len * W) as i64, false, p, rm, false, 550);
    } else {
        let v = if choose(2) == 1 { a.v.neg() } else { a.v.clone() };
        policy(3);
        let r = v.cbrt(p, rm);
        policy(0);
        check_root(&r, 3, zw(&a.w), a.e as i64 - (len * W) as i64, v.is_negative(), p, rm, false, 560);
    }
}
/// The same, for one distance to the middle or representable number at a time.
fn root_near<const N: usize>(n: usize, p: usize, rs: &[i64]) {
    let j = 1 + choose(n as u64) as usize;
    let sh = (n * p + j).wrapping_sub(N * W);
    let a = num_of::<N>(NORMAL, Sign::Pos, j as Exponent, false);
    let s = zsym(p + 1);
    let r = pick(rs);
    assume(zpow(s, n).sub(zi(r)).eq(zw(&a.w).shl(sh)));
    solve(200);
    root_check(&a, n, N, p);
}
/// Roots of zero and of negative numbers.
fn root_dom<const N: usize>() {
    let p = pick(&[W, 2 * W]);
    let rm = any_rm();
    let z = num_of::<1>(ZERO, any_sign(), 0, false);
    check(z.v.sqrt(p, rm).is_zero() & z.v.cbrt(p, rm).is_zero(), 540);
    let a = num_of::<N>(1 + choose(2), Sign::Neg, any_exp(), any_bool());
    check(a.v.sqrt(p, rm).is_nan(), 541);
    cover(true, 540);
}

// ------------------------------------------------------------------ remainder

/// r = x - y * trunc(x / y), exactly: x = za * 2^ka, y = zb * 2^kb
fn check_rem(r: &BigFloat, za: Z, ka: i64, zb: Z, kb: i64, s: Sign, ixa: bool, ixb: bool, id: u32) {
    let (m, _, rs, e, inexact) = match r.as_raw_parts() {
        Some(v) => v,
        None => {
            check(false, id);
            return;
        }
    };
    check(canonical(r), id + 1);
    check(rs == s, id + 2);
    let e = concretize(e as i64 as u64) as i64;
    let kr = if r.is_zero() { ka } else { e - (m.len() * W) as i64 };
    let c = ka.min(kb).min(kr);
    check((ka - c < 9999) & (kb - c < 9999) & (kr - c < 9999), id + 4);
    let x = za.shl((ka - c) as usize);
    let y = zb.shl((kb - c) as usize);
    let rr = zw(m).shl((kr - c) as usize);
    check(rr.lt(y), id + 5);
    let q = x.divc(y);
    check(q.mul(y).add(rr).eq(x), id + 6);
    // the flag of y does not matter when x is returned as it is
    check((inexact == (ixa | ixb)) | (q.eq(zu(0)) & (inexact == ixa)), id + 3);
    cover(r.is_zero(), id);
    cover(!r.is_zero(), id + 1);
    cover(zu(1).lt(q), id + 2);
}
fn rem_nm<const N: usize, const M: usize>(ds: &[i64], pat: bool) {
    let a = num_of::<N>(NORMAL, any_sign(), pick(ds) as Exponent, false);
    let b = if pat { num_words(pattern::<M>(), any_sign(), 0, any_bool()) } else { num_of::<M>(NORMAL, any_sign(), 0, any_bool()) };
    policy(3);
    let r = a.v.rem(&b.v);
    policy(0);
    check_rem(&r, zw(&a.w), a.e as i64 - (N * W) as i64, zw(&b.w), -((M * W) as i64), a.s, a.inexact, b.inexact, 550);
}
/// near the lower limit of the exponent range
fn rem_lo<const N: usize, const M: usize>(es: &[Exponent]) {
    let a = if choose(2) == 0 { num_of::<N>(SUBNORMAL, any_sign(), 0, false) } else { num_of::<N>(NORMAL, any_sign(), pick(es), false) };
    let b = if choose(2) == 0 { num_of::<M>(SUBNORMAL, any_sign(), 0, false) } else { num_words(pattern::<M>(), any_sign(), pick(es), false) };
    policy(3);
    let r = a.v.rem(&b.v);
    policy(0);
    check_rem(&r, zw(&a.w), a.e as i64 - (N * W) as i64, zw(&b.w), b.e as i64 - (M * W) as i64, a.s, a.inexact, b.inexact, 570);
}

// ------------------------------------------------------------------ set_precision

/// `r` is `x * 2^k` rounded to `p` bits, kept in words_for(p) words; the exponent range is not exceeded.
fn check_prec(r: &BigFloat, x: Z, e0: i64, n0: i64, p: usize, rm: RoundingMode, neg: bool, ix: bool, id: u32) {
    let (m, n, s, e, inexact) = r.as_raw_parts().unwrap();
    check(m.len() == words_for(p), id);
    check(((s == Sign::Neg) == neg) & canonical(r), id + 1);
    if n == 0 {
        check(e == 0, id + 1);
    }
    let zero = n == 0;
    let e = if zero { e0 } else { concretize(e as i64 as u64) as i64 };
    let nw = (m.len() * W) as i64;
    // compare at the scale of the finest of x, r and the unit 2^(e - p)
    let k = e0 - n0;
    let kr = e - nw;
    let ku = e - p as i64;
    let c = k.min(kr).min(ku);
    check((k - c < 9999) & (kr - c < 9999) & (ku - c < 9999), id + 2);
    let rz = zw(m);
    let u = zu(1).shl((ku - c) as usize);
    let rs = rz.shl((kr - c) as usize);
    let d = x.shl((k - c) as usize).sub(rs);
    // r is a multiple of the unit
    check(rs.low((ku - c) as usize).eq(zu(0)), id + 3);
    let pow2 = (e > EXPONENT_MIN as i64) & rz.eq(zu(1).shl(nw as usize - 1));
    // with one bit, 2^e is the even neighbour of the numbers below it and the odd neighbour of those above
    let odd = if p == 1 { Z::ite(pow2, Z::ite(d.lt(zu(0)), zu(0), zu(1)), Z::ite(rs.bit((ku - c) as usize), zu(1), zu(0))).eq(zu(1)) } else { rs.bit((ku - c) as usize) };
    check(round_ok(d, u, odd, pow2, dir(rm, neg)), id + 4);
    let lost = !d.eq(zu(0));
    check(inexact == (ix | lost), id + 5);
    cover(lost, id);
    cover(!lost, id + 1);
}
fn prec_n<const N: usize>(es: &[Exponent], kinds: &[u64]) {
    prec_at::<N>(es, kinds, 1 + choose(((N + 1) * W) as u64) as usize)
}
fn prec_w<const N: usize>(es: &[Exponent], kinds: &[u64], ps: &[usize]) {
    prec_at::<N>(es, kinds, pick(ps))
}
fn prec_at<const N: usize>(es: &[Exponent], kinds: &[u64], p: usize) {
    let kind = pick(kinds);
    let e = pick(es);
    let rm = any_rm();
    let a = num_of::<N>(kind, any_sign(), e, any_bool());
    let mut r = a.v.clone();
    policy(3);
    let res = r.set_precision(p, rm);
    policy(0);
    if res.is_err() {
        // only by rounding up out of the exponent range
        check(r.is_nan() | (a.e == EXPONENT_MAX), 589);
        check(a.e == EXPONENT_MAX, 590);
        let low = (N * W).saturating_sub(p);
        let top = zw(&a.w).shr(low);
        check(top.eq(zu(1).shl(p.min(N * W)).sub(zu(1))) & !zw(&a.w).low(low).eq(zu(0)), 591);
        check(rm != RoundingMode::ToZero, 592);
        cover(true, 592);
        return;
    }
    check_prec(&r, zw(&a.w), a.e as i64, (N * W) as i64, p, rm, a.s == Sign::Neg, a.inexact, 580);
}

/// When try_set_precision(p, rm, s) succeeds on an inexact number, every real number that is within
/// one unit of the s-th bit of it rounds to the same result.
fn tryprec_n<const N: usize>(ps: &[usize], ss: &[usize]) {
    let rm = any_rm();
    let p = pick(ps);
    let s = pick(ss);
    assume(p < s);
    // recorded finding: the words below the s-th bit are examined in the wrong order
    known((rm == RoundingMode::ToEven || rm == RoundingMode::ToOdd) && s < N * W, 31);
    let a = num_of::<N>(NORMAL, any_sign(), 3, true);
    let neg = a.s == Sign::Neg;
    let mut r = a.v.clone();
    policy(3);
    let ok = r.try_set_precision(p, rm, s);
    policy(0);
    if !ok {
        cover(true, 600);
        return;
    }
    cover(true, 601);
    let (m, n, rs, e, inexact) = r.as_raw_parts().unwrap();
    check((m.len() == words_for(p)) & (n == m.len() * W) & (rs == a.s) & inexact, 600);
    if p >= N * W {
        // nothing to round: the value itself
        check(e == 3, 604);
        let (l, l2) = ((N * W), m.len() * W);
        check(zw(m).eq(zw(&a.w).shl(l2 - l)), 601);
        return;
    }
    if rm == RoundingMode::None {
        return;
    }
    let e = concretize(e as i64 as u64) as i64;
    // everything in units of 2^(3 - NW - 2): the number, its neighbours at distance < err, the result
    let x = zw(&a.w).shl(4);
    let err = zu(1).shl(N * W - s + 4);
    let kr = e - n as i64;
    let ku = e - p as i64;
    let c = 3 - (N * W) as i64 - 4;
    let rz = zw(m);
    let rs = rz.shl((kr - c) as usize);
    let u = zu(1).shl((ku - c) as usize);
    let pow2 = rz.eq(zu(1).shl(n - 1));
    let odd = rs.bit((ku - c) as usize);
    // any real strictly within err of x, given at a finer scale
    let t = zu(sym((N * W - s + 5) as u32));
    let lim = err;
    let y = x.add(t).sub(lim);
    assume(x.sub(lim).lt(y) & y.lt(x.add(lim)));
    check(round_ok(y.sub(rs), u, odd, pow2, dir(rm, neg)), 602);
}

// ------------------------------------------------------------------ integers

/// int, fract, floor, ceil, is_int
fn ints_n<const N: usize>(es: &[Exponent], kinds: &[u64]) {
    let a = num_of::<N>(pick(kinds), any_sign(), pick(es), any_bool());
    let neg = a.s == Sign::Neg;
    policy(3);
    let i = a.v.int();
    let f = a.v.fract();
    let fl = a.v.floor();
    let ce = a.v.ceil();
    let isint = a.v.is_int();
    policy(0);
    let nb = (N * W) as i64;
    let x = zw(&a.w);
    let fb = nb - a.e as i64; // number of fraction bits
    let z0 = zu(0);
    let (ip, fp) = if fb <= 0 { (x, z0) } else if fb > nb { (z0, x) } else { (x.shr(fb as usize), x.low(fb as usize)) };
    let whole = fp.eq(z0);
    check(isint == whole, 620);
    // integer part: ip (or ip * 2^-fb when there are no fraction bits)
    let (m, _, s, e, ix) = i.as_raw_parts().unwrap();
    check((m.len() == N) & (s == a.s) & (ix == a.inexact) & canonical(&i), 621);
    if fb <= 0 {
        check(same(&i, &a.w, a.s, a.e, a.inexact), 622);
    } else {
        check(zw(m).eq(if fb > nb { z0 } else { ip.shl(fb as usize) }), 623);
        check(i.is_zero() | (e == a.e), 624);
    }
    let (m, _, s, e, ix) = f.as_raw_parts().unwrap();
    check((m.len() == N) & (s == a.s) & (ix == a.inexact) & canonical(&f), 625);
    if f.is_zero() {
        check(whole, 626);
    } else {
        // f * 2^e == fp * 2^a.e
        let d = concretize((a.e as i64 - e as i64) as u64) as i64;
        check((d >= 0) & (d < nb), 627);
        check(fp.shl(d as usize).eq(zw(m)), 628);
    }
    // floor and ceil: whole numbers, rounded toward zero if the precision is not enough
    let up = !whole & !neg;
    let dn = !whole & neg;
    intval(&ce, ip, fb, up, neg, a.s, N, a.inexact | !whole, 630);
    intval(&fl, ip, fb, dn, neg, a.s, N, a.inexact | !whole, 640);
    cover(whole, 620);
    cover(!whole, 621);
}
/// `r` has the magnitude of (ip + inc), which fits N words
fn intval(r: &BigFloat, ip: Z, fb: i64, inc: bool, _neg: bool, s: Sign, n: usize, _ix: bool, id: u32) {
    let (m, _, rs, e, _) = match r.as_raw_parts() {
        Some(v) => v,
        None => {
            check(false, id);
            return;
        }
    };
    check((m.len() == n) & canonical(r), id + 1);
    if fb <= 0 {
        let d = concretize(e as i64 as u64) as i64 + fb - (n * W) as i64;
        check((d == 0) & zw(m).eq(ip) & (rs == s), id + 2);
        return;
    }
    let v = Z::ite(inc, ip.add(zu(1)), ip);
    if r.is_zero() {
        check(v.eq(zu(0)), id + 3);
    } else {
        check(rs == s, id + 4);
        let k = (n * W) as i64 - concretize(e as i64 as u64) as i64;
        check((k >= 0) & (k < (n * W) as i64), id + 5);
        check(zw(m).eq(v.shl(k as usize)), id + 6);
    }
}

/// Rounding to n fraction bits.
fn round_n<const N: usize>(es: &[Exponent], ns: &[usize]) {
    let a = num_of::<N>(NORMAL, any_sign(), pick(es), any_bool());
    let rm = any_rm();
    let n = pick(ns);
    let neg = a.s == Sign::Neg;
    policy(3);
    let r = a.v.round(n, rm);
    policy(0);
    let nb = (N * W) as i64;
    let fb = nb - a.e as i64;
    if fb <= n as i64 {
        check(same(&r, &a.w, a.s, a.e, a.inexact), 660);
        cover(true, 660);
        return;
    }
    let (m, _, s, e, ix) = r.as_raw_parts().unwrap();
    check((m.len() == N) & (s == a.s) & canonical(&r), 661);
    // unit 2^-n; x = w * 2^-fb
    let x = zw(&a.w);
    let cut = (fb - n as i64) as usize;
    let u = zu(1).shl(cut);
    let rr = if r.is_zero() {
        zu(0)
    } else {
        let k = fb - (nb - concretize(e as i64 as u64) as i64);
        check(k >= 0, 662);
        zw(m).shl(k as usize)
    };
    check(rr.low(cut).eq(zu(0)), 663);
    let d = x.sub(rr);
    check(round_ok(d, u, rr.bit(cut), false, dir(rm, neg)), 664);
    check(ix == (a.inexact | !d.eq(zu(0))), 665);
    cover(r.is_zero(), 661);
    cover(!r.is_zero(), 662);
}

const EVENUP: [RoundingMode; 2] = [RoundingMode::ToEven, RoundingMode::Up];

harnesses! {
    h_sqrt_1 => sqrt_n::<1>(&[W, 2 * W], &[0, 1], false, &RMS);
    h_sqrt_1h => root_hard::<1>(2, W, 5);
    h_sqrt_1n => root_near::<1>(2, W, &[1, -1, 4, -4, 9, -7]);
    h_sqrt_2n => root_near::<2>(2, 2 * W, &[1, -1, 4, -4, 9, -7]);
    h_sqrt_21n => root_near::<2>(2, 3 * W, &[1, -7]);
    h_sqrt_4n => root_near::<4>(2, 4 * W, &[1, -4, 9, -7]);
    h_sqrt_8n => root_near::<8>(2, 8 * W, &[1, -7]);
    h_cbrt_2n => root_near::<2>(3, W, &[1, -1, 3, -5, 8, -8]);
    h_cbrt_3n => root_near::<3>(3, 2 * W, &[1, -1, 3]);
    h_cbrt_4n => root_near::<4>(3, 2 * W, &[1, -1, 3, -5]);
    h_sqrt_1i => root_hard::<1>(2, 2 * W, 12);
    h_sqrt_2h => root_hard::<2>(2, 2 * W, 5);
    h_sqrt_2i => root_hard::<2>(2, W, 1);
    h_sqrt_3h => root_hard::<3>(2, 3 * W, 5);
    h_sqrt_4h => root_hard::<4>(2, 4 * W, 4);
    h_cbrt_1h => root_hard::<1>(3, W, 12);
    h_cbrt_2h => root_hard::<2>(3, 2 * W, 20);
    h_cbrt_3h => root_hard::<3>(3, 3 * W, 28);
    h_sqrt_1q => sqrt_n::<1>(&[W], &[0, 1], false, &EVENUP);
    h_sqrt_1s => sqrt_n::<1>(&[W], &[0], true, &EVENUP);
    h_sqrt_2 => sqrt_n::<2>(&[W], &[0, 1], false, &EVENUP);
    h_sqrt_2l => sqrt_low::<2>(4, &[W, 2 * W, 3 * W], &[0, -5], &RMS);
    h_sqrt_2q => sqrt_low::<2>(3, &[2 * W], &[0, -5], &EVENUP);
    h_sqrt_3l => sqrt_low::<3>(4, &[W, 2 * W, 4 * W], &[0, 7], &RMS);
    h_sqrt_3q => sqrt_low::<3>(3, &[3 * W], &[0], &EVENUP);
    h_sqrt_5q => sqrt_low::<5>(2, &[5 * W], &[1], &EVENUP);
    h_sqrt_6l => sqrt_low::<6>(3, &[3 * W, 6 * W], &[0, 1], &EVENUP);
    h_sqrt_9l => sqrt_low::<9>(3, &[9 * W], &[0, 1], &EVENUP);
    h_cbrt_1 => cbrt_n::<1>(&[W], &[0, 1, 2], false, &RMS);
    h_cbrt_1q => cbrt_n::<1>(&[W], &[0, 1, 2], false, &EVENUP);
    h_cbrt_1s => cbrt_n::<1>(&[W], &[0], true, &EVENUP);
    h_cbrt_1b => cbrt_n::<1>(&[2 * W], &[0, -2, 5], false, &RMS);
    h_cbrt_1l => cbrt_low::<1>(3, &[2 * W], &[0, 1, -1], &EVENUP);
    h_cbrt_2l => cbrt_low::<2>(4, &[W, 2 * W], &[0, 1, -1], &RMS);
    h_cbrt_2q => cbrt_low::<2>(2, &[2 * W], &[1], &EVENUP);
    h_cbrt_3l => cbrt_low::<3>(4, &[W, 3 * W], &[0, 4], &RMS);
    h_cbrt_3q => cbrt_low::<3>(2, &[3 * W], &[0], &EVENUP);
    h_root_dom_1 => root_dom::<1>();
    h_root_dom_2 => root_dom::<2>();
    h_rem_11 => rem_nm::<1, 1>(&[-1, 0, 1, 2, 5, 8, 9, 13, 20], false);
    h_rem_11p => rem_nm::<1, 1>(&[-1, 0, 1, 2, 3, 7, 8, 9, 16, 40], true);
    h_rem_21 => rem_nm::<2, 1>(&[-1, 0, 1, 3, 8, 9, 17], true);
    h_rem_12 => rem_nm::<1, 2>(&[-1, 0, 1, 3, 8, 9, 17], true);
    h_rem_22 => rem_nm::<2, 2>(&[-1, 0, 1, 2, 7, 9], true);
    h_rem_lo_1 => rem_lo::<1, 1>(&[EXPONENT_MIN, EXPONENT_MIN + 1, EXPONENT_MIN + 6]);
    h_rem_lo_2 => rem_lo::<2, 1>(&[EXPONENT_MIN, EXPONENT_MIN + 3]);
    h_prec_1 => prec_n::<1>(&[0, EXPONENT_MAX, EXPONENT_MIN], &[0, 1, 2]);
    h_prec_2 => prec_n::<2>(&[0, EXPONENT_MAX, EXPONENT_MIN], &[1, 2]);
    h_prec_3 => prec_n::<3>(&[5], &[1, 2]);
    h_prec_1w => prec_w::<1>(&[0, EXPONENT_MAX, EXPONENT_MIN], &[1, 2], &[1, 2, 31, 62, 63, 64, 65]);
    h_tryprec_1 => tryprec_n::<1>(&[1, 3, 4, 5, 6, 7, 8, 9, 12], &[8]);
    h_tryprec_2 => tryprec_n::<2>(&[1, 6, 7, 8, 9, 10, 12, 14, 15, 16, 17], &[8, 16]);
    h_tryprec_3 => tryprec_n::<3>(&[1, 7, 8, 13, 15, 16, 17, 20, 23, 24], &[8, 16, 24]);
    h_ints_1 => ints_n::<1>(&[-1, 0, 1, 2, 4, 7, 8, 9, 20, EXPONENT_MIN, EXPONENT_MAX], &[0, 1, 2]);
    h_ints_2 => ints_n::<2>(&[-3, 0, 1, 7, 8, 9, 15, 16, 17], &[1]);
    h_ints_3 => ints_n::<3>(&[0, 1, 8, 13, 23, 24], &[1]);
    h_ints_1w => ints_n::<1>(&[-1, 0, 1, 2, 33, 63, 64, 65], &[0, 1, 2]);
    h_round_1 => round_n::<1>(&[-9, -3, -1, 0, 1, 4, 7, 8, 9], &[0, 1, 2, 3, 5, 8, 9]);
    h_round_2 => round_n::<2>(&[-2, 0, 1, 8, 9, 15, 16], &[0, 1, 7, 8, 9]);
    h_round_1w => round_n::<1>(&[-1, 0, 1, 62, 63], &[0, 1, 63]);
}
