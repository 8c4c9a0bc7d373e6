//! Interface between harnesses and the symbolic engine.  `Z` is an exact (unbounded) integer.
#![allow(dead_code)]

macro_rules! ext {
    ($abi:literal) => {
        extern $abi {
            fn vx_sym(bits: u32) -> u64;
            fn vx_choose(n: u64) -> u64;
            fn vx_assume(c: bool);
            fn vx_check(c: bool, id: u32);
            fn vx_cover(c: bool, id: u32);
            fn vx_known(c: bool, id: u32);
            fn vx_observe(v: u64);
            fn vx_concretize(v: u64) -> u64;
            fn vx_policy(bits: u32);
            fn vx_solve(max: u64);
            fn vx_log(v: u64);
            fn vx_snap();
            fn vz_words(p: *const u8, n: u64) -> u32;
            fn vz_u64(v: u64) -> u32;
            fn vz_i64(v: u64) -> u32;
            fn vz_add(a: u32, b: u32) -> u32;
            fn vz_sub(a: u32, b: u32) -> u32;
            fn vz_neg(a: u32) -> u32;
            fn vz_mul(a: u32, b: u32) -> u32;
            fn vz_shl(a: u32, n: u64) -> u32;
            fn vz_shr(a: u32, n: u64) -> u32;
            fn vz_lt(a: u32, b: u32) -> bool;
            fn vz_eq(a: u32, b: u32) -> bool;
            fn vz_ite(c: bool, a: u32, b: u32) -> u32;
            fn vz_bit(a: u32, n: u64) -> bool;
            fn vz_low(a: u32, n: u64) -> u32;
            fn vz_tou64(a: u32) -> u64;
            fn vz_mulwords(pa: *const u8, na: u64, pb: *const u8, nb: u64, wb: u64) -> u32;
            fn vz_divc(a: u32, d: u32) -> u32;
        }
    };
}
#[cfg(panic = "abort")]
ext!("C");
#[cfg(not(panic = "abort"))]
ext!("C-unwind");

/// Declares harnesses: an exported entry point each (for the solver) and a table (for replay).
macro_rules! harnesses {
    ($($n:ident => $e:expr;)*) => {
        pub const TABLE: &[(&str, fn())] = &[$((stringify!($n), || { $e; })),*];
        mod ent {
            #[allow(unused_imports)]
            use super::*;
            $(#[no_mangle] pub extern "C" fn $n() { $e; })*
        }
    };
}

/// A symbolic value of the given number of bits.
#[inline(always)]
pub fn sym(bits: u32) -> u64 {
    unsafe { vx_sym(bits) }
}
/// Case split over 0..n.
#[inline(always)]
pub fn choose(n: u64) -> u64 {
    unsafe { vx_choose(n) }
}
#[inline(always)]
pub fn assume(c: bool) {
    unsafe { vx_assume(c) }
}
#[inline(always)]
pub fn check(c: bool, id: u32) {
    unsafe { vx_check(c, id) }
}
/// Reachability witness: some input must make `c` true here.
#[inline(always)]
pub fn cover(c: bool, id: u32) {
    unsafe { vx_cover(c, id) }
}
/// Marks the inputs for which a recorded known finding applies.
#[inline(always)]
pub fn known(c: bool, id: u32) {
    unsafe { vx_known(c, id) }
}
#[inline(always)]
pub fn observe(v: u64) {
    unsafe { vx_observe(v) }
}
/// Case split over all feasible values of `v`.
#[inline(always)]
pub fn concretize(v: u64) -> u64 {
    unsafe { vx_concretize(v) }
}
/// 1: case split on leading/trailing zero counts, 2: case split on shift amounts
#[inline(always)]
pub fn policy(bits: u32) {
    unsafe { vx_policy(bits) }
}
/// Asks the solver for all inputs that satisfy the assumptions so far; up to `max`, later questions are settled by that set.
#[inline(always)]
pub fn solve(max: u64) {
    unsafe { vx_solve(max) }
}
#[inline(always)]
pub fn log(v: u64) {
    unsafe { vx_log(v) }
}

/// Everything up to here is the same on every path.
#[inline(always)]
pub fn snap() {
    unsafe { vx_snap() }
}

#[derive(Clone, Copy)]
pub struct Z(u32);

#[inline(always)]
pub fn zu(v: u64) -> Z {
    Z(unsafe { vz_u64(v) })
}
#[inline(always)]
pub fn zi(v: i64) -> Z {
    Z(unsafe { vz_i64(v as u64) })
}
/// Little-endian words as a non-negative integer.
#[inline(always)]
pub fn zw<T>(w: &[T]) -> Z {
    Z(unsafe { vz_words(w.as_ptr() as *const u8, core::mem::size_of_val(w) as u64) })
}
/// Product of two word vectors, as a sum of word products.
#[inline(always)]
pub fn zmulw<T>(a: &[T], b: &[T]) -> Z {
    Z(unsafe { vz_mulwords(a.as_ptr() as *const u8, a.len() as u64, b.as_ptr() as *const u8, b.len() as u64, core::mem::size_of::<T>() as u64) })
}
/// An arbitrary number of the given number of bits.
#[inline(always)]
pub fn zsym(bits: usize) -> Z {
    let mut z = zu(0);
    let mut n = 0;
    while n < bits {
        let k = if bits - n < 64 { bits - n } else { 64 };
        z = z.add(zu(sym(k as u32)).shl(n));
        n += k;
    }
    z
}
impl Z {
    #[inline(always)]
    pub fn add(self, o: Z) -> Z {
        Z(unsafe { vz_add(self.0, o.0) })
    }
    #[inline(always)]
    pub fn sub(self, o: Z) -> Z {
        Z(unsafe { vz_sub(self.0, o.0) })
    }
    #[inline(always)]
    pub fn neg(self) -> Z {
        Z(unsafe { vz_neg(self.0) })
    }
    #[inline(always)]
    pub fn mul(self, o: Z) -> Z {
        Z(unsafe { vz_mul(self.0, o.0) })
    }
    #[inline(always)]
    pub fn shl(self, n: usize) -> Z {
        Z(unsafe { vz_shl(self.0, n as u64) })
    }
    /// floor(self / 2^n)
    #[inline(always)]
    pub fn shr(self, n: usize) -> Z {
        Z(unsafe { vz_shr(self.0, n as u64) })
    }
    #[inline(always)]
    pub fn lt(self, o: Z) -> bool {
        unsafe { vz_lt(self.0, o.0) }
    }
    #[inline(always)]
    pub fn le(self, o: Z) -> bool {
        !unsafe { vz_lt(o.0, self.0) }
    }
    #[inline(always)]
    pub fn eq(self, o: Z) -> bool {
        unsafe { vz_eq(self.0, o.0) }
    }
    #[inline(always)]
    pub fn ite(c: bool, a: Z, b: Z) -> Z {
        Z(unsafe { vz_ite(c, a.0, b.0) })
    }
    #[inline(always)]
    pub fn bit(self, n: usize) -> bool {
        unsafe { vz_bit(self.0, n as u64) }
    }
    /// self mod 2^n
    #[inline(always)]
    pub fn low(self, n: usize) -> Z {
        Z(unsafe { vz_low(self.0, n as u64) })
    }
    #[inline(always)]
    pub fn to_u64(self) -> u64 {
        unsafe { vz_tou64(self.0) }
    }
    /// floor(self / d), both non-negative
    #[inline(always)]
    pub fn divc(self, d: Z) -> Z {
        Z(unsafe { vz_divc(self.0, d.0) })
    }
}
