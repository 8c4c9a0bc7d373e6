//! Minimal hand-written binding to the libz3 C API (loaded with dlopen).

use crate::bv::Bv;
use crate::term::{Bop, FxMap, Model, Node, Pool, T};
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::time::Instant;

type P = *mut c_void;

extern "C" {
    fn dlopen(f: *const c_char, flag: c_int) -> P;
    fn dlsym(h: P, s: *const c_char) -> P;
    fn dlerror() -> *const c_char;
}

macro_rules! api {
    ($($name:ident : fn($($a:ty),*) $(-> $r:ty)?;)*) => {
        #[allow(non_snake_case)]
        pub struct Api { $( $name: unsafe extern "C" fn($($a),*) $(-> $r)?, )* }
        impl Api {
            unsafe fn load(h: P) -> Result<Api, String> {
                Ok(Api { $( $name: {
                    let s = CString::new(stringify!($name)).unwrap();
                    let p = dlsym(h, s.as_ptr());
                    if p.is_null() { return Err(format!("missing symbol {}", stringify!($name))); }
                    std::mem::transmute(p)
                }, )* })
            }
        }
    }
}

api! {
    Z3_mk_config: fn() -> P;
    Z3_del_config: fn(P);
    Z3_set_param_value: fn(P, *const c_char, *const c_char);
    Z3_mk_context: fn(P) -> P;
    Z3_del_context: fn(P);
    Z3_set_error_handler: fn(P, P);
    Z3_get_error_code: fn(P) -> c_int;
    Z3_get_error_msg: fn(P, c_int) -> *const c_char;
    Z3_get_full_version: fn() -> *const c_char;
    Z3_mk_string_symbol: fn(P, *const c_char) -> P;
    Z3_mk_bv_sort: fn(P, c_uint) -> P;
    Z3_mk_bool_sort: fn(P) -> P;
    Z3_mk_const: fn(P, P, P) -> P;
    Z3_mk_bv_numeral: fn(P, c_uint, *const bool) -> P;
    Z3_mk_true: fn(P) -> P;
    Z3_mk_false: fn(P) -> P;
    Z3_mk_eq: fn(P, P, P) -> P;
    Z3_mk_not: fn(P, P) -> P;
    Z3_mk_ite: fn(P, P, P, P) -> P;
    Z3_mk_xor: fn(P, P, P) -> P;
    Z3_mk_and: fn(P, c_uint, *const P) -> P;
    Z3_mk_or: fn(P, c_uint, *const P) -> P;
    Z3_mk_bvnot: fn(P, P) -> P;
    Z3_mk_bvand: fn(P, P, P) -> P;
    Z3_mk_bvor: fn(P, P, P) -> P;
    Z3_mk_bvxor: fn(P, P, P) -> P;
    Z3_mk_bvadd: fn(P, P, P) -> P;
    Z3_mk_bvsub: fn(P, P, P) -> P;
    Z3_mk_bvmul: fn(P, P, P) -> P;
    Z3_mk_bvudiv: fn(P, P, P) -> P;
    Z3_mk_bvurem: fn(P, P, P) -> P;
    Z3_mk_bvsdiv: fn(P, P, P) -> P;
    Z3_mk_bvsrem: fn(P, P, P) -> P;
    Z3_mk_bvshl: fn(P, P, P) -> P;
    Z3_mk_bvlshr: fn(P, P, P) -> P;
    Z3_mk_bvashr: fn(P, P, P) -> P;
    Z3_mk_bvult: fn(P, P, P) -> P;
    Z3_mk_bvslt: fn(P, P, P) -> P;
    Z3_mk_concat: fn(P, P, P) -> P;
    Z3_mk_extract: fn(P, c_uint, c_uint, P) -> P;
    Z3_mk_zero_ext: fn(P, c_uint, P) -> P;
    Z3_mk_sign_ext: fn(P, c_uint, P) -> P;
    Z3_mk_solver_for_logic: fn(P, P) -> P;
    Z3_mk_tactic: fn(P, *const c_char) -> P;
    Z3_tactic_inc_ref: fn(P, P);
    Z3_mk_solver_from_tactic: fn(P, P) -> P;
    Z3_mk_params: fn(P) -> P;
    Z3_params_inc_ref: fn(P, P);
    Z3_params_set_uint: fn(P, P, P, c_uint);
    Z3_solver_set_params: fn(P, P, P);
    Z3_solver_inc_ref: fn(P, P);
    Z3_solver_dec_ref: fn(P, P);
    Z3_solver_assert: fn(P, P, P);
    Z3_solver_push: fn(P, P);
    Z3_solver_pop: fn(P, P, c_uint);
    Z3_solver_check: fn(P, P) -> c_int;
    Z3_solver_check_assumptions: fn(P, P, c_uint, *const P) -> c_int;
    Z3_solver_get_model: fn(P, P) -> P;
    Z3_solver_to_string: fn(P, P) -> *const c_char;
    Z3_solver_get_reason_unknown: fn(P, P) -> *const c_char;
    Z3_model_inc_ref: fn(P, P);
    Z3_model_dec_ref: fn(P, P);
    Z3_model_eval: fn(P, P, P, bool, *mut P) -> bool;
    Z3_get_numeral_binary_string: fn(P, P) -> *const c_char;
    Z3_get_bool_value: fn(P, P) -> c_int;
}

unsafe impl Send for Api {}
unsafe impl Sync for Api {}

static API: std::sync::OnceLock<Api> = std::sync::OnceLock::new();

pub fn load(path: &str) -> Result<String, String> {
    unsafe {
        let c = CString::new(path).unwrap();
        let h = dlopen(c.as_ptr(), 2);
        if h.is_null() {
            return Err(format!("dlopen {}: {}", path, CStr::from_ptr(dlerror()).to_string_lossy()));
        }
        let api = Api::load(h)?;
        let v = CStr::from_ptr((api.Z3_get_full_version)()).to_string_lossy().to_string();
        let _ = API.set(api);
        Ok(v)
    }
}

fn api() -> &'static Api {
    API.get().expect("libz3 not loaded")
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Res {
    Sat,
    Unsat,
    Unknown,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time_us: u64,
    pub max_us: u64,
    pub refinements: u64,
}

pub struct Solver {
    ctx: P,
    /// incremental solver over bit-blasted clauses, queried under assumptions
    inc: P,
    cache: FxMap<T, P>,      // bv form (width-1 terms: Bool form)
    vars: FxMap<T, P>,
    /// product atoms: term, abstract variable, exact flag
    atoms: Vec<(T, bool)>,
    atom_vars: FxMap<T, P>,
    /// lemmas about atoms not yet asserted in `inc`
    pending: Vec<P>,
    lemmas: Vec<P>,
    pub stats: Stats,
    pub timeout_ms: u32,
    /// products of operands of at most this width are bit-blasted exactly
    pub exact_mul: u32,
    nterms: usize,
    lits: FxMap<T, P>,
    nproxy: usize,
}

extern "C" fn on_error(_c: P, _e: c_int) {}

impl Solver {
    pub fn new(timeout_ms: u32, exact_mul: u32) -> Solver {
        unsafe {
            let a = api();
            let cfg = (a.Z3_mk_config)();
            let ctx = (a.Z3_mk_context)(cfg);
            (a.Z3_del_config)(cfg);
            (a.Z3_set_error_handler)(ctx, on_error as *const () as P);
            let mut s = Solver {
                ctx,
                inc: std::ptr::null_mut(),
                cache: FxMap::default(),
                vars: FxMap::default(),
                atoms: Vec::new(),
                atom_vars: FxMap::default(),
                pending: Vec::new(),
                lemmas: Vec::new(),
                stats: Stats::default(),
                timeout_ms,
                exact_mul,
                nterms: 0,
                lits: FxMap::default(),
                nproxy: 0,
            };
            s.inc = s.mk_solver("QF_FD");
            s
        }
    }

    fn mk_solver(&self, logic: &str) -> P {
        unsafe {
            let a = api();
            let l = CString::new(logic).unwrap();
            let sym = (a.Z3_mk_string_symbol)(self.ctx, l.as_ptr());
            let s = (a.Z3_mk_solver_for_logic)(self.ctx, sym);
            (a.Z3_solver_inc_ref)(self.ctx, s);
            let p = (a.Z3_mk_params)(self.ctx);
            (a.Z3_params_inc_ref)(self.ctx, p);
            let t = CString::new("timeout").unwrap();
            let ts = (a.Z3_mk_string_symbol)(self.ctx, t.as_ptr());
            (a.Z3_params_set_uint)(self.ctx, p, ts, self.timeout_ms);
            (a.Z3_solver_set_params)(self.ctx, s, p);
            s
        }
    }

    pub fn size(&self) -> usize {
        self.nterms
    }

    fn err(&self) -> Option<String> {
        unsafe {
            let a = api();
            let e = (a.Z3_get_error_code)(self.ctx);
            if e != 0 {
                Some(CStr::from_ptr((a.Z3_get_error_msg)(self.ctx, e)).to_string_lossy().to_string())
            } else {
                None
            }
        }
    }

    fn numeral(&self, b: &Bv, w: u32) -> P {
        let bits: Vec<bool> = (0..w).map(|i| b.bit(i)).collect();
        unsafe { (api().Z3_mk_bv_numeral)(self.ctx, w, bits.as_ptr()) }
    }

    fn bv1(&self, b: P) -> P {
        // Bool -> bit-vector of width 1
        unsafe {
            let a = api();
            let one = (a.Z3_mk_bv_numeral)(self.ctx, 1, [true].as_ptr());
            let zero = (a.Z3_mk_bv_numeral)(self.ctx, 1, [false].as_ptr());
            (a.Z3_mk_ite)(self.ctx, b, one, zero)
        }
    }
    fn as_bool(&self, b: P) -> P {
        unsafe {
            let a = api();
            let one = (a.Z3_mk_bv_numeral)(self.ctx, 1, [true].as_ptr());
            (a.Z3_mk_eq)(self.ctx, b, one)
        }
    }

    /// bit-vector form
    fn bvt(&mut self, p: &Pool, t: T) -> P {
        let x = self.tr(p, t);
        if p.w(t) == 1 {
            self.bv1(x)
        } else {
            x
        }
    }

    fn mkvar(&mut self, name: &str, w: u32) -> P {
        unsafe {
            let a = api();
            let c = CString::new(name).unwrap();
            let sym = (a.Z3_mk_string_symbol)(self.ctx, c.as_ptr());
            let sort = if w == 1 { (a.Z3_mk_bool_sort)(self.ctx) } else { (a.Z3_mk_bv_sort)(self.ctx, w) };
            (a.Z3_mk_const)(self.ctx, sym, sort)
        }
    }

    /// Translation. Terms of width 1 become Bool, all others bit-vectors.
    fn tr(&mut self, p: &Pool, t: T) -> P {
        if let Some(x) = self.cache.get(&t) {
            return *x;
        }
        self.nterms += 1;
        let a = api();
        let c = self.ctx;
        let w = p.w(t);
        let node = p.node(t).clone();
        let r = unsafe {
            match node {
                Node::Const(b) => {
                    if w == 1 {
                        if b.is_zero() {
                            (a.Z3_mk_false)(c)
                        } else {
                            (a.Z3_mk_true)(c)
                        }
                    } else {
                        self.numeral(&b, w)
                    }
                }
                Node::Var(s, k) => {
                    let v = self.mkvar(&format!("{}{}_{}", if k == 1 { "u" } else { "v" }, s, w), w);
                    self.vars.insert(t, v);
                    v
                }
                Node::Not(x) => {
                    let y = self.tr(p, x);
                    if w == 1 {
                        (a.Z3_mk_not)(c, y)
                    } else {
                        (a.Z3_mk_bvnot)(c, y)
                    }
                }
                Node::Bin(op, x, y) => {
                    let x = self.tr(p, x);
                    let y = self.tr(p, y);
                    if w == 1 {
                        match op {
                            Bop::And => (a.Z3_mk_and)(c, 2, [x, y].as_ptr()),
                            Bop::Or => (a.Z3_mk_or)(c, 2, [x, y].as_ptr()),
                            Bop::Xor | Bop::Add | Bop::Sub => (a.Z3_mk_xor)(c, x, y),
                            Bop::Mul => (a.Z3_mk_and)(c, 2, [x, y].as_ptr()),
                            _ => panic!("width-1 operation {:?}", op),
                        }
                    } else {
                        let f = match op {
                            Bop::And => a.Z3_mk_bvand,
                            Bop::Or => a.Z3_mk_bvor,
                            Bop::Xor => a.Z3_mk_bvxor,
                            Bop::Add => a.Z3_mk_bvadd,
                            Bop::Sub => a.Z3_mk_bvsub,
                            Bop::Mul => a.Z3_mk_bvmul,
                            Bop::UDiv => a.Z3_mk_bvudiv,
                            Bop::URem => a.Z3_mk_bvurem,
                            Bop::SDiv => a.Z3_mk_bvsdiv,
                            Bop::SRem => a.Z3_mk_bvsrem,
                            Bop::Shl => a.Z3_mk_bvshl,
                            Bop::LShr => a.Z3_mk_bvlshr,
                            Bop::AShr => a.Z3_mk_bvashr,
                        };
                        f(c, x, y)
                    }
                }
                Node::Eq(x, y) => {
                    let x = self.tr(p, x);
                    let y = self.tr(p, y);
                    (a.Z3_mk_eq)(c, x, y)
                }
                Node::Ult(x, y) => {
                    let x = self.bvt(p, x);
                    let y = self.bvt(p, y);
                    (a.Z3_mk_bvult)(c, x, y)
                }
                Node::Slt(x, y) => {
                    let x = self.bvt(p, x);
                    let y = self.bvt(p, y);
                    (a.Z3_mk_bvslt)(c, x, y)
                }
                Node::Ite(k, x, y) => {
                    let k = self.tr(p, k);
                    let x = self.tr(p, x);
                    let y = self.tr(p, y);
                    (a.Z3_mk_ite)(c, k, x, y)
                }
                Node::Concat(x, y) => {
                    let x = self.bvt(p, x);
                    let y = self.bvt(p, y);
                    (a.Z3_mk_concat)(c, x, y)
                }
                Node::Extract(x, lo) => {
                    let x = self.bvt(p, x);
                    let e = (a.Z3_mk_extract)(c, lo + w - 1, lo, x);
                    if w == 1 {
                        self.as_bool(e)
                    } else {
                        e
                    }
                }
                Node::ZExt(x) => {
                    let wx = p.w(x);
                    let x = self.bvt(p, x);
                    (a.Z3_mk_zero_ext)(c, w - wx, x)
                }
                Node::SExt(x) => {
                    let wx = p.w(x);
                    let x = self.bvt(p, x);
                    (a.Z3_mk_sign_ext)(c, w - wx, x)
                }
                Node::MulAtom(x, y) => {
                    let h = w / 2;
                    let (zx, zy) = {
                        let zx = self.bvt(p, x);
                        let zy = self.bvt(p, y);
                        (zx, zy)
                    };
                    if h <= self.exact_mul {
                        let ex = (a.Z3_mk_zero_ext)(c, h, zx);
                        let ey = (a.Z3_mk_zero_ext)(c, h, zy);
                        (a.Z3_mk_bvmul)(c, ex, ey)
                    } else {
                        let v = self.mkvar(&format!("m{}_{}", t.0, w), w);
                        self.atoms.push((t, false));
                        self.atom_vars.insert(t, v);
                        self.atom_lemmas(v, zx, zy, h, x == y);
                        v
                    }
                }
            }
        };
        if let Some(e) = self.err() {
            panic!("z3 error: {} on {:?} w={}", e, p.node(t), w);
        }
        self.cache.insert(t, r);
        r
    }

    /// A literal equivalent to the (Boolean) term, for use as an assumption.
    fn literal(&mut self, p: &Pool, t: T) -> P {
        if let Some(x) = self.lits.get(&t) {
            return *x;
        }
        let r = match p.node(t).clone() {
            Node::Not(x) => {
                let l = self.literal(p, x);
                unsafe { (api().Z3_mk_not)(self.ctx, l) }
            }
            Node::Var(..) => self.tr(p, t),
            _ => {
                let f = self.tr(p, t);
                self.proxy(f)
            }
        };
        self.lits.insert(t, r);
        r
    }

    fn proxy(&mut self, f: P) -> P {
        self.nproxy += 1;
        let v = self.mkvar(&format!("p{}", self.nproxy), 1);
        let e = unsafe { (api().Z3_mk_eq)(self.ctx, v, f) };
        self.pending.push(e);
        v
    }

    fn lemma(&mut self, l: P) {
        self.pending.push(l);
        self.lemmas.push(l);
    }

    /// Sound facts about v = x * y (operands of width h, v of width 2h).
    fn atom_lemmas(&mut self, v: P, x: P, y: P, h: u32, square: bool) {
        unsafe {
            let a = api();
            let c = self.ctx;
            let zero = self.numeral(&Bv::zero(h), h);
            let zero2 = self.numeral(&Bv::zero(2 * h), 2 * h);
            let xz = (a.Z3_mk_eq)(c, x, zero);
            let yz = (a.Z3_mk_eq)(c, y, zero);
            let vz = (a.Z3_mk_eq)(c, v, zero2);
            // v = 0 <=> x = 0 or y = 0
            let o = (a.Z3_mk_or)(c, 2, [xz, yz].as_ptr());
            let l = (a.Z3_mk_eq)(c, vz, o);
            self.lemma(l);
            // v <= (2^h-1)^2
            let m = Bv::from_u128(crate::bv::mask(h), 2 * h);
            let mm = m.mul(&m, 2 * h);
            let mmn = self.numeral(&mm, 2 * h);
            let gt = (a.Z3_mk_bvult)(c, mmn, v);
            let l = (a.Z3_mk_not)(c, gt);
            self.lemma(l);
            // top bits set => v >= 2^(2h-2); v <= x * 2^h, v <= y * 2^h (strictly below if nonzero)
            let tx = (a.Z3_mk_extract)(c, h - 1, h - 1, x);
            let ty = (a.Z3_mk_extract)(c, h - 1, h - 1, y);
            let tx = self.as_bool(tx);
            let ty = self.as_bool(ty);
            let both = (a.Z3_mk_and)(c, 2, [tx, ty].as_ptr());
            let hv = (a.Z3_mk_extract)(c, 2 * h - 1, 2 * h - 2, v);
            let z2 = self.numeral(&Bv::zero(2), 2);
            let hz = (a.Z3_mk_eq)(c, hv, z2);
            let hnz = (a.Z3_mk_not)(c, hz);
            let nb = (a.Z3_mk_not)(c, both);
            let l = (a.Z3_mk_or)(c, 2, [nb, hnz].as_ptr());
            self.lemma(l);
            let hi = (a.Z3_mk_extract)(c, 2 * h - 1, h, v);
            for (q, qz) in [(x, xz), (y, yz)] {
                // hi(v) < q unless q = 0
                let lt = (a.Z3_mk_bvult)(c, hi, q);
                let l = (a.Z3_mk_or)(c, 2, [qz, lt].as_ptr());
                self.lemma(l);
            }
            // x=1 => v = y ; y = 1 => v = x
            let one = self.numeral(&Bv::from_u128(1, h), h);
            for (q, r) in [(x, y), (y, x)] {
                let e1 = (a.Z3_mk_eq)(c, q, one);
                let zr = (a.Z3_mk_zero_ext)(c, h, r);
                let e2 = (a.Z3_mk_eq)(c, v, zr);
                let n1 = (a.Z3_mk_not)(c, e1);
                let l = (a.Z3_mk_or)(c, 2, [n1, e2].as_ptr());
                self.lemma(l);
            }
            // lowest bit
            let x0 = (a.Z3_mk_extract)(c, 0, 0, x);
            let y0 = (a.Z3_mk_extract)(c, 0, 0, y);
            let v0 = (a.Z3_mk_extract)(c, 0, 0, v);
            let an = (a.Z3_mk_bvand)(c, x0, y0);
            let l = (a.Z3_mk_eq)(c, v0, an);
            self.lemma(l);
            // top operand bit set => v >= other * 2^(h-1)
            for (q, r) in [(tx, y), (ty, x)] {
                let e = (a.Z3_mk_zero_ext)(c, h, r);
                let k = self.numeral(&Bv::from_u128(h as u128 - 1, 2 * h), 2 * h);
                let s = (a.Z3_mk_bvshl)(c, e, k);
                let lt = (a.Z3_mk_bvult)(c, v, s);
                let nlt = (a.Z3_mk_not)(c, lt);
                let nq = (a.Z3_mk_not)(c, q);
                let l = (a.Z3_mk_or)(c, 2, [nq, nlt].as_ptr());
                self.lemma(l);
            }
            let _ = square;
        }
    }

    fn flush(&mut self) {
        let l: Vec<P> = self.pending.drain(..).collect();
        for x in l {
            unsafe { (api().Z3_solver_assert)(self.ctx, self.inc, x) };
        }
    }

    /// Is the conjunction of `conds` satisfiable?
    pub fn check(&mut self, p: &Pool, conds: &[T], want_model: bool) -> (Res, Option<Model>) {
        let t0 = Instant::now();
        let ps: Vec<P> = conds.iter().map(|t| self.literal(p, *t)).collect();
        let r = self.check_ps(p, conds, &ps, want_model);
        let us = t0.elapsed().as_micros() as u64;
        self.stats.queries += 1;
        self.stats.time_us += us;
        self.stats.max_us = self.stats.max_us.max(us);
        match r.0 {
            Res::Sat => self.stats.sat += 1,
            Res::Unsat => self.stats.unsat += 1,
            Res::Unknown => self.stats.unknown += 1,
        }
        r
    }

    fn check_ps(&mut self, p: &Pool, conds: &[T], ps: &[P], want_model: bool) -> (Res, Option<Model>) {
        let a = api();
        for round in 0..200 {
            self.flush();
            let all = ps.to_vec();
            let r = unsafe { (a.Z3_solver_check_assumptions)(self.ctx, self.inc, all.len() as c_uint, all.as_ptr()) };
            if let Some(e) = self.err() {
                panic!("z3 error in check: {}", e);
            }
            if r == -1 {
                return (Res::Unsat, None);
            }
            if r == 0 {
                return (Res::Unknown, None);
            }
            // which atoms are relevant?
            let atoms = self.relevant_atoms(p, conds);
            if atoms.is_empty() && !want_model {
                return (Res::Sat, None);
            }
            let m = unsafe { (a.Z3_solver_get_model)(self.ctx, self.inc) };
            unsafe { (a.Z3_model_inc_ref)(self.ctx, m) };
            let model = self.read_model(p, conds, m);
            let mut bad: Vec<(T, Bv)> = Vec::new();
            let mut ev = crate::term::Evaluator::sparse();
            for t in &atoms {
                let v = self.model_value(m, self.atom_vars[t], p.w(*t));
                let e = ev.eval(p, &model, *t);
                if v != e {
                    bad.push((*t, e));
                }
            }
            unsafe { (a.Z3_model_dec_ref)(self.ctx, m) };
            if bad.is_empty() {
                return (Res::Sat, Some(model));
            }
            self.stats.refinements += 1;
            // does the real model satisfy everything anyway?
            let ok = conds.iter().all(|c| ev.eval(p, &model, *c) == Bv::S(1));
            if ok {
                return (Res::Sat, Some(model));
            }
            // try with the operands of the offending atoms pinned to the model's values
            if round % 4 == 0 {
                let mut pin = all.clone();
                for t in &atoms {
                    if let Node::MulAtom(x, y) = p.node(*t).clone() {
                        let h = p.w(x);
                        // pin one operand and relate by constant multiplication
                        let yv = ev.eval(p, &model, y);
                        let zy = self.tr(p, y);
                        let zx = self.tr(p, x);
                        unsafe {
                            let n = self.numeral(&yv, h);
                            let q = (a.Z3_mk_eq)(self.ctx, zy, n);
                            let q = self.proxy(q);
                            pin.push(q);
                            let ex = (a.Z3_mk_zero_ext)(self.ctx, h, zx);
                            let n2 = self.numeral(&yv.zext(h, 2 * h), 2 * h);
                            let pr = (a.Z3_mk_bvmul)(self.ctx, ex, n2);
                            let q = (a.Z3_mk_eq)(self.ctx, self.atom_vars[t], pr);
                            let q = self.proxy(q);
                            pin.push(q);
                        }
                    }
                }
                self.flush();
                let r = unsafe { (a.Z3_solver_check_assumptions)(self.ctx, self.inc, pin.len() as c_uint, pin.as_ptr()) };
                if r == 1 {
                    let m = unsafe { (a.Z3_solver_get_model)(self.ctx, self.inc) };
                    unsafe { (a.Z3_model_inc_ref)(self.ctx, m) };
                    let model = self.read_model(p, conds, m);
                    unsafe { (a.Z3_model_dec_ref)(self.ctx, m) };
                    let mut ev = crate::term::Evaluator::sparse();
                    if conds.iter().all(|c| ev.eval(p, &model, *c) == Bv::S(1)) {
                        return (Res::Sat, Some(model));
                    }
                }
            }
            // refine: make the offending atoms exact, a few at a time; first add cheap
            // pointwise constraints, then the full definition
            for (t, _) in bad.iter().take(4) {
                if let Node::MulAtom(x, y) = p.node(*t).clone() {
                    let h = p.w(x);
                    let zx = self.tr(p, x);
                    let zy = self.tr(p, y);
                    let v = self.atom_vars[t];
                    unsafe {
                        if round < 12 {
                            // y = c  =>  v = x * c
                            for (s, q, zs, zq) in [(x, y, zx, zy), (y, x, zy, zx)] {
                                let _ = s;
                                let qv = ev.eval(p, &model, q);
                                let n = self.numeral(&qv, h);
                                let e1 = (a.Z3_mk_eq)(self.ctx, zq, n);
                                let es = (a.Z3_mk_zero_ext)(self.ctx, h, zs);
                                let n2 = self.numeral(&qv.zext(h, 2 * h), 2 * h);
                                let pr = (a.Z3_mk_bvmul)(self.ctx, es, n2);
                                let e2 = (a.Z3_mk_eq)(self.ctx, v, pr);
                                let n1 = (a.Z3_mk_not)(self.ctx, e1);
                                let l = (a.Z3_mk_or)(self.ctx, 2, [n1, e2].as_ptr());
                                self.lemma(l);
                            }
                        } else {
                            let ex = (a.Z3_mk_zero_ext)(self.ctx, h, zx);
                            let ey = (a.Z3_mk_zero_ext)(self.ctx, h, zy);
                            let pr = (a.Z3_mk_bvmul)(self.ctx, ex, ey);
                            let e = (a.Z3_mk_eq)(self.ctx, v, pr);
                            self.lemma(e);
                        }
                    }
                }
            }
        }
        (Res::Unknown, None)
    }

    fn relevant_atoms(&self, p: &Pool, conds: &[T]) -> Vec<T> {
        if self.atoms.is_empty() {
            return Vec::new();
        }
        let mut seen: std::collections::HashSet<T> = Default::default();
        let mut st: Vec<T> = conds.to_vec();
        let mut out = Vec::new();
        while let Some(t) = st.pop() {
            if !seen.insert(t) {
                continue;
            }
            kids(p, t, |k| st.push(k));
            if self.atom_vars.contains_key(&t) {
                out.push(t);
            }
        }
        out
    }

    fn model_value(&self, m: P, v: P, w: u32) -> Bv {
        unsafe {
            let a = api();
            let mut out: P = std::ptr::null_mut();
            if !(a.Z3_model_eval)(self.ctx, m, v, true, &mut out) {
                panic!("model eval failed");
            }
            if w == 1 {
                let b = (a.Z3_get_bool_value)(self.ctx, out);
                return Bv::S((b == 1) as u128);
            }
            let s = CStr::from_ptr((a.Z3_get_numeral_binary_string)(self.ctx, out)).to_string_lossy().to_string();
            let mut limbs = vec![0u64; ((w + 63) / 64) as usize];
            for (i, ch) in s.bytes().rev().enumerate() {
                if ch == b'1' {
                    limbs[i / 64] |= 1 << (i % 64);
                }
            }
            Bv::from_limbs(limbs, w)
        }
    }

    fn read_model(&self, p: &Pool, conds: &[T], m: P) -> Model {
        let mut seen: std::collections::HashSet<T> = Default::default();
        let mut st: Vec<T> = conds.to_vec();
        let mut model = Model::default();
        while let Some(t) = st.pop() {
            if !seen.insert(t) {
                continue;
            }
            if let Node::Var(s, k) = p.node(t) {
                let v = self.model_value(m, self.vars[&t], p.w(t));
                model.vals.insert((*s, *k), v);
            }
            kids(p, t, |k| st.push(k));
        }
        model
    }

    /// SMT-LIB2 text of a query (for cross-checking with another solver)
    pub fn smt2(&mut self, p: &Pool, conds: &[T]) -> String {
        unsafe {
            let a = api();
            let ps: Vec<P> = conds.iter().map(|t| self.tr(p, *t)).collect();
            let s = self.mk_solver("QF_BV");
            for l in self.lemmas.clone() {
                (a.Z3_solver_assert)(self.ctx, s, l);
            }
            for x in ps {
                (a.Z3_solver_assert)(self.ctx, s, x);
            }
            let r = CStr::from_ptr((a.Z3_solver_to_string)(self.ctx, s)).to_string_lossy().to_string();
            (a.Z3_solver_dec_ref)(self.ctx, s);
            r
        }
    }
}

impl Drop for Solver {
    fn drop(&mut self) {
        unsafe {
            let a = api();
            (a.Z3_solver_dec_ref)(self.ctx, self.inc);
            (a.Z3_del_context)(self.ctx);
        }
    }
}

pub fn kids(p: &Pool, t: T, mut f: impl FnMut(T)) {
    match p.node(t) {
        Node::Const(_) | Node::Var(..) => {}
        Node::Not(a) | Node::Extract(a, _) | Node::ZExt(a) | Node::SExt(a) => f(*a),
        Node::Bin(_, a, b)
        | Node::Eq(a, b)
        | Node::Ult(a, b)
        | Node::Slt(a, b)
        | Node::Concat(a, b)
        | Node::MulAtom(a, b) => {
            f(*a);
            f(*b);
        }
        Node::Ite(a, b, c) => {
            f(*a);
            f(*b);
            f(*c);
        }
    }
}
