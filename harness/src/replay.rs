//! Native replay: runs harnesses on recorded inputs against the real code, with the verification
//! primitives implemented by plain code.
//!
//! usage: replay FILE     where FILE holds traces: lines "entry NAME", "in WIDTH VALUE CHOOSE"..., "end"
//! Output, one line per trace: "ok obs..." | "fail ID" | "panic MESSAGE" | "assume" | "short"
//! Environment: RP_FILL=<byte> (fill of fresh memory), RP_FENCE=1|2 (guard page after|before blocks).
#[macro_use]
mod vx;
mod gen;
include!("mods.rs");

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::RefCell;
use std::collections::VecDeque;
use std::sync::atomic::{AtomicU8, Ordering};

static FILL: AtomicU8 = AtomicU8::new(0);
static FENCE: AtomicU8 = AtomicU8::new(255);

extern "C" {
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn munmap(a: *mut u8, n: usize) -> i32;
    fn mprotect(a: *mut u8, n: usize, prot: i32) -> i32;
    fn getenv(n: *const u8) -> *const u8;
}

struct Al;
const PG: usize = 4096;
unsafe fn env(n: &[u8]) -> u8 {
    let mut p = getenv(n.as_ptr());
    let mut v = 0u8;
    while !p.is_null() && *p != 0 {
        v = v.wrapping_mul(10).wrapping_add(*p - 48);
        p = p.add(1);
    }
    v
}
fn fence() -> u8 {
    let f = FENCE.load(Ordering::Relaxed);
    if f != 255 {
        return f;
    }
    let f = unsafe { env(b"RP_FENCE\0") };
    FILL.store(unsafe { env(b"RP_FILL\0") }, Ordering::Relaxed);
    FENCE.store(f, Ordering::Relaxed);
    f
}
unsafe impl GlobalAlloc for Al {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let f = fence();
        let p = if f == 0 {
            System.alloc(l)
        } else {
            let body = (l.size() + l.align() + PG - 1) / PG * PG;
            let m = mmap(core::ptr::null_mut(), body + 2 * PG, 3, 0x22, -1, 0);
            mprotect(m, PG, 0);
            mprotect(m.add(PG + body), PG, 0);
            if f == 1 {
                let o = (body - l.size()) & !(l.align() - 1);
                m.add(PG + o)
            } else {
                m.add(PG)
            }
        };
        if !p.is_null() {
            core::ptr::write_bytes(p, FILL.load(Ordering::Relaxed), l.size());
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = self.alloc(l);
        if !p.is_null() {
            core::ptr::write_bytes(p, 0, l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let f = fence();
        if f == 0 {
            System.dealloc(p, l)
        } else {
            let body = (l.size() + l.align() + PG - 1) / PG * PG;
            let base = if f == 1 {
                let o = (body - l.size()) & !(l.align() - 1);
                p.sub(o + PG)
            } else {
                p.sub(PG)
            };
            munmap(base, body + 2 * PG);
        }
    }
}
#[global_allocator]
static AL: Al = Al;

// ---- exact integers: sign and magnitude
#[derive(Clone, PartialEq)]
struct Int {
    neg: bool,
    m: Vec<u32>,
}
impl Int {
    fn norm(mut self) -> Int {
        while self.m.last() == Some(&0) {
            self.m.pop();
        }
        if self.m.is_empty() {
            self.neg = false;
        }
        self
    }
    fn u(v: u64) -> Int {
        Int { neg: false, m: vec![v as u32, (v >> 32) as u32] }.norm()
    }
    fn bytes(b: &[u8]) -> Int {
        let mut m = vec![0u32; (b.len() + 3) / 4];
        for (i, x) in b.iter().enumerate() {
            m[i / 4] |= (*x as u32) << (8 * (i % 4));
        }
        Int { neg: false, m }.norm()
    }
    fn cmpm(a: &[u32], b: &[u32]) -> std::cmp::Ordering {
        a.len().cmp(&b.len()).then_with(|| a.iter().rev().cmp(b.iter().rev()))
    }
    fn addm(a: &[u32], b: &[u32]) -> Vec<u32> {
        let mut r = vec![];
        let mut c = 0u64;
        for i in 0..a.len().max(b.len()) {
            c += *a.get(i).unwrap_or(&0) as u64 + *b.get(i).unwrap_or(&0) as u64;
            r.push(c as u32);
            c >>= 32;
        }
        r.push(c as u32);
        r
    }
    fn subm(a: &[u32], b: &[u32]) -> Vec<u32> {
        let mut r = vec![];
        let mut c = 0i64;
        for i in 0..a.len() {
            c += a[i] as i64 - *b.get(i).unwrap_or(&0) as i64;
            r.push(c as u32);
            c >>= 32;
        }
        r
    }
    fn neg(&self) -> Int {
        Int { neg: !self.neg, m: self.m.clone() }.norm()
    }
    fn add(&self, o: &Int) -> Int {
        if self.neg == o.neg {
            Int { neg: self.neg, m: Self::addm(&self.m, &o.m) }.norm()
        } else if Self::cmpm(&self.m, &o.m) != std::cmp::Ordering::Less {
            Int { neg: self.neg, m: Self::subm(&self.m, &o.m) }.norm()
        } else {
            Int { neg: o.neg, m: Self::subm(&o.m, &self.m) }.norm()
        }
    }
    fn mul(&self, o: &Int) -> Int {
        let mut r = vec![0u32; self.m.len() + o.m.len() + 1];
        for (i, a) in self.m.iter().enumerate() {
            let mut c = 0u64;
            for (j, b) in o.m.iter().enumerate() {
                c += *a as u64 * *b as u64 + r[i + j] as u64;
                r[i + j] = c as u32;
                c >>= 32;
            }
            r[i + o.m.len()] = c as u32;
        }
        Int { neg: self.neg != o.neg, m: r }.norm()
    }
    fn shl(&self, n: usize) -> Int {
        let mut m = vec![0u32; n / 32];
        let s = n % 32;
        let mut c = 0u64;
        for x in &self.m {
            c |= (*x as u64) << s;
            m.push(c as u32);
            c >>= 32;
        }
        m.push(c as u32);
        Int { neg: self.neg, m }.norm()
    }
    fn bitm(&self, n: usize) -> bool {
        self.m.get(n / 32).map(|x| x >> (n % 32) & 1 == 1).unwrap_or(false)
    }
    /// floor division by a power of two
    fn shr(&self, n: usize) -> Int {
        let lost = (0..n.min(self.m.len() * 32)).any(|i| self.bitm(i));
        let m: Vec<u32> = (0..(self.m.len() * 32).saturating_sub(n) / 32 + 1).map(|k| (0..32).map(|b| (self.bitm(n + k * 32 + b) as u32) << b).sum()).collect();
        let r = Int { neg: self.neg, m }.norm();
        if self.neg && lost {
            r.add(&Int::u(1).neg())
        } else {
            r
        }
    }
    fn low(&self, n: usize) -> Int {
        self.add(&self.shr(n).shl(n).neg())
    }
    fn bit(&self, n: usize) -> bool {
        self.shr(n).low(1) == Int::u(1)
    }
    fn divc(&self, d: &Int) -> Int {
        // floor division, d > 0
        let mut q = Int::u(0);
        let mut r = Int::u(0);
        let dd = d;
        for i in (0..self.m.len() * 32).rev() {
            r = r.shl(1);
            if self.bitm(i) {
                r = r.add(&Int::u(1));
            }
            q = q.shl(1);
            if Self::cmpm(&r.m, &dd.m) != std::cmp::Ordering::Less {
                r = r.add(&dd.neg());
                q = q.add(&Int::u(1));
            }
        }
        if self.neg {
            let q = q.neg();
            if r.m.is_empty() {
                q
            } else {
                q.add(&Int::u(1).neg())
            }
        } else {
            q
        }
    }
    fn lt(&self, o: &Int) -> bool {
        self.add(&o.neg()).neg
    }
}

struct St {
    inputs: VecDeque<(u32, u64, bool)>,
    obs: Vec<u64>,
    z: Vec<Int>,
    short: bool,
}
thread_local! {
    static S: RefCell<St> = RefCell::new(St { inputs: VecDeque::new(), obs: vec![], z: vec![], short: false });
}
struct Assume;
struct Fail(u32);

fn next() -> u64 {
    S.with(|s| {
        let mut s = s.borrow_mut();
        match s.inputs.pop_front() {
            Some(x) => x.1,
            None => {
                s.short = true;
                0
            }
        }
    })
}
fn zput(v: Int) -> u32 {
    S.with(|s| {
        let mut s = s.borrow_mut();
        s.z.push(v);
        s.z.len() as u32 - 1
    })
}
fn zget(i: u32) -> Int {
    S.with(|s| s.borrow().z[i as usize].clone())
}

#[no_mangle]
extern "C" fn vx_sym(bits: u32) -> u64 {
    let v = next();
    if bits >= 64 {
        v
    } else {
        v & ((1 << bits) - 1)
    }
}
#[no_mangle]
extern "C" fn vx_choose(n: u64) -> u64 {
    let v = next();
    if v >= n {
        0
    } else {
        v
    }
}
#[no_mangle]
extern "C-unwind" fn vx_assume(c: bool) {
    if !c {
        std::panic::resume_unwind(Box::new(Assume));
    }
}
#[no_mangle]
extern "C-unwind" fn vx_check(c: bool, id: u32) {
    if !c {
        std::panic::resume_unwind(Box::new(Fail(id)));
    }
}
#[no_mangle]
extern "C" fn vx_cover(_c: bool, _id: u32) {}
#[no_mangle]
extern "C" fn vx_known(_c: bool, _id: u32) {}
#[no_mangle]
extern "C" fn vx_observe(v: u64) {
    S.with(|s| s.borrow_mut().obs.push(v));
}
#[no_mangle]
extern "C" fn vx_concretize(v: u64) -> u64 {
    v
}
#[no_mangle]
extern "C" fn vx_policy(_b: u32) {}
#[no_mangle]
extern "C" fn vx_solve(_max: u64) {}
#[no_mangle]
extern "C" fn vx_snap() {}
#[no_mangle]
extern "C" fn vx_log(v: u64) {
    if std::env::var("RP_LOG").is_ok() {
        println!("log {:#x}", v);
    }
}
#[no_mangle]
unsafe extern "C" fn vz_words(p: *const u8, n: u64) -> u32 {
    zput(Int::bytes(std::slice::from_raw_parts(p, n as usize)))
}
#[no_mangle]
extern "C" fn vz_u64(v: u64) -> u32 {
    zput(Int::u(v))
}
#[no_mangle]
extern "C" fn vz_i64(v: u64) -> u32 {
    let i = v as i64;
    let m = Int::u(i.unsigned_abs());
    zput(if i < 0 { m.neg() } else { m })
}
#[no_mangle]
extern "C" fn vz_add(a: u32, b: u32) -> u32 {
    zput(zget(a).add(&zget(b)))
}
#[no_mangle]
extern "C" fn vz_sub(a: u32, b: u32) -> u32 {
    zput(zget(a).add(&zget(b).neg()))
}
#[no_mangle]
extern "C" fn vz_neg(a: u32) -> u32 {
    zput(zget(a).neg())
}
#[no_mangle]
extern "C" fn vz_mul(a: u32, b: u32) -> u32 {
    zput(zget(a).mul(&zget(b)))
}
#[no_mangle]
extern "C" fn vz_shl(a: u32, n: u64) -> u32 {
    zput(zget(a).shl(n as usize))
}
#[no_mangle]
extern "C" fn vz_shr(a: u32, n: u64) -> u32 {
    zput(zget(a).shr(n as usize))
}
#[no_mangle]
extern "C" fn vz_lt(a: u32, b: u32) -> bool {
    zget(a).lt(&zget(b))
}
#[no_mangle]
extern "C" fn vz_eq(a: u32, b: u32) -> bool {
    zget(a) == zget(b)
}
#[no_mangle]
extern "C" fn vz_ite(c: bool, a: u32, b: u32) -> u32 {
    zput(if c { zget(a) } else { zget(b) })
}
#[no_mangle]
extern "C" fn vz_bit(a: u32, n: u64) -> bool {
    zget(a).bit(n as usize)
}
#[no_mangle]
extern "C" fn vz_low(a: u32, n: u64) -> u32 {
    zput(zget(a).low(n as usize))
}
#[no_mangle]
extern "C" fn vz_tou64(a: u32) -> u64 {
    let x = zget(a).low(64);
    *x.m.first().unwrap_or(&0) as u64 | (*x.m.get(1).unwrap_or(&0) as u64) << 32
}
#[no_mangle]
unsafe extern "C" fn vz_mulwords(pa: *const u8, na: u64, pb: *const u8, nb: u64, wb: u64) -> u32 {
    let a = Int::bytes(std::slice::from_raw_parts(pa, (na * wb) as usize));
    let b = Int::bytes(std::slice::from_raw_parts(pb, (nb * wb) as usize));
    zput(a.mul(&b))
}
#[no_mangle]
extern "C" fn vz_divc(a: u32, d: u32) -> u32 {
    zput(zget(a).divc(&zget(d)))
}

fn main() {
    let file = std::env::args().nth(1).expect("usage: replay FILE");
    let text = std::fs::read_to_string(&file).expect("read");
    let mut entry: Option<fn()> = None;
    let mut ins = VecDeque::new();
    std::panic::set_hook(Box::new(|_| {}));
    for l in text.lines() {
        let t: Vec<&str> = l.split_whitespace().collect();
        match t.first() {
            Some(&"entry") => {
                entry = TABLES.iter().flat_map(|t| t.iter()).find(|e| e.0 == t[1]).map(|e| e.1);
                ins = VecDeque::new();
            }
            Some(&"in") => ins.push_back((t[1].parse().unwrap(), t[2].parse().unwrap(), t[3] == "1")),
            Some(&"end") => {
                S.with(|s| {
                    let mut s = s.borrow_mut();
                    s.inputs = std::mem::take(&mut ins);
                    s.obs.clear();
                    s.z.clear();
                    s.short = false;
                });
                let Some(f) = entry else {
                    println!("noentry");
                    continue;
                };
                let r = std::panic::catch_unwind(f);
                let (obs, short) = S.with(|s| {
                    let s = s.borrow();
                    (s.obs.clone(), s.short)
                });
                match r {
                    Ok(()) => println!("ok{} {:?}", if short { " short" } else { "" }, obs),
                    Err(e) => {
                        if e.is::<Assume>() {
                            println!("assume");
                        } else if let Some(f) = e.downcast_ref::<Fail>() {
                            println!("fail {}", f.0);
                        } else if let Some(m) = e.downcast_ref::<&str>() {
                            println!("panic {}", m.replace('\n', " "));
                        } else if let Some(m) = e.downcast_ref::<String>() {
                            println!("panic {}", m.replace('\n', " "));
                        } else {
                            println!("panic");
                        }
                    }
                }
            }
            _ => {}
        }
    }
}
