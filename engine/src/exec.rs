//! Symbolic interpreter for the parsed LLVM IR.  One call of `run_path` executes the harness
//! once, following a prefix of recorded decisions and then exploring new ones; alternatives
//! that the solver finds feasible are handed back as work items.

use crate::bv::{mask, sext128, Bv};
use crate::ir::*;
use crate::term::{Bop, Evaluator, FxMap, Model, Node, Pool, T};
use crate::blast::Blaster;
use crate::z3::Res;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::Arc;

#[derive(Clone, Debug)]
pub enum Val {
    C(u128),
    T(T),
    Agg(Arc<[Val]>),
    Undef,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Dec {
    B(bool),
    V(u128),
}

#[derive(Clone)]
pub struct Work {
    pub prefix: Vec<Dec>,
    pub model: Model,
    /// the model is not known to satisfy the path condition
    pub weak: bool,
    pub set: Option<ModelSet>,
}

/// Every solution of the path condition, over the inputs it depends on: found by the solver one
/// after the other, until it showed that there is no further one.
#[derive(Clone)]
pub struct ModelSet {
    vars: u128,
    models: Vec<Arc<Model>>,
}

#[derive(Debug)]
pub enum End {
    /// assumption violated on every continuation
    Infeasible,
    Fail(String),
    /// the engine could not decide (error of the check)
    Stuck(String),
    Stop,
    /// out of time
    Late,
    Exit,
}

type R<X> = Result<X, End>;

#[derive(Clone, Debug)]
pub struct Input {
    pub w: u32,
    pub val: Bv,
    pub choose: bool,
}

#[derive(Clone, Debug)]
pub struct Trace {
    pub inputs: Vec<Input>,
    pub observed: Vec<u64>,
    pub known: Option<u32>,
    pub weak: bool,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub msg: String,
    pub stack: Vec<String>,
    pub trace: Trace,
    pub uninit: bool,
}

#[derive(Default, Clone)]
pub struct PathStats {
    pub insts: u64,
    pub checks: u64,
    pub checks_trivial: u64,
    pub checks_by_set: u64,
    pub forks: u64,
    pub undecided_forks: u64,
    pub undecided_checks: u64,
}

#[derive(Clone)]
struct Obj {
    data: Vec<u8>,
    /// 0 concrete, u32::MAX uninitialised, otherwise term id + 1 (data holds the byte index)
    tag: Vec<u32>,
    alive: bool,
    ro: bool,
    heap: bool,
}

const UNINIT: u32 = u32::MAX;

#[derive(Clone)]
struct Frame {
    f: usize,
    blk: u32,
    prev: u32,
    pc: usize,
    regs: Vec<Val>,
    allocas: Vec<u32>,
    dst: Option<u32>,
    /// for invoke: continue at this block
    cont: Option<u32>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum H {
    Interp,
    Nop,
    RetArg0,
    Panic,
    Abort,
    Malloc,
    Calloc,
    Realloc,
    Free,
    PosixMemalign,
    RustAlloc,
    RustAllocZ,
    RustDealloc,
    RustRealloc,
    Memcpy,
    Memset,
    Memcmp,
    Strlen,
    UMax,
    UMin,
    SMax,
    SMin,
    UAddSat,
    SSat(bool),
    USubSat,
    AddOvf(bool),
    SubOvf(bool),
    MulOvf(bool),
    Fshl,
    Fshr,
    Ctpop,
    Cttz,
    Ctlz,
    Abs,
    Bswap,
    Bitrev,
    UCmp,
    SCmp,
    AddCarry,
    SubBorrow,
    IsConst,
    UdivTi,
    UmodTi,
    Vx(u32),
    FloatFn(u32),
    Unknown,
}

const VX: [&str; 30] = [
    "vx_sym", "vx_choose", "vx_assume", "vx_check", "vx_cover", "vx_known", "vx_observe", "vx_concretize", "vx_policy", "vx_solve",
    "vz_words", "vz_u64", "vz_i64", "vz_add", "vz_sub", "vz_neg", "vz_mul", "vz_shl", "vz_shr", "vz_lt", "vz_eq",
    "vz_ite", "vz_bit", "vz_low", "vz_tou64", "vz_mulwords", "vx_symbolic", "vz_divc", "vx_log", "vx_snap",
];

pub struct Options {
    pub known: HashSet<u32>,
    pub max_insts: u64,
    pub max_values: usize,
    pub malloc_limit: u64,
    pub trace: bool,
}

pub struct Machine {
    pub prog: Arc<Program>,
    pub handlers: Vec<H>,
    pub opts: Options,
}

fn handler(n: &str, declared: bool) -> H {
    if let Some(i) = VX.iter().position(|x| *x == n) {
        return H::Vx(i as u32);
    }
    if let Some(r) = n.strip_prefix("llvm.") {
        return match () {
            _ if r.starts_with("lifetime") || r.starts_with("dbg") || r.starts_with("assume") || r.starts_with("experimental.noalias") || r.starts_with("prefetch") || r.starts_with("fake.use") || r.starts_with("donothing") || r.starts_with("invariant") || r.starts_with("x86.sse2.pause") || r.starts_with("sideeffect") || r.starts_with("pseudoprobe") => H::Nop,
            _ if r.starts_with("memcpy") || r.starts_with("memmove") => H::Memcpy,
            _ if r.starts_with("memset") => H::Memset,
            _ if r.starts_with("umax.") => H::UMax,
            _ if r.starts_with("umin.") => H::UMin,
            _ if r.starts_with("smax.") => H::SMax,
            _ if r.starts_with("smin.") => H::SMin,
            _ if r.starts_with("uadd.sat") => H::UAddSat,
            _ if r.starts_with("usub.sat") => H::USubSat,
            _ if r.starts_with("sadd.sat") => H::SSat(false),
            _ if r.starts_with("ssub.sat") => H::SSat(true),
            _ if r.starts_with("uadd.with.overflow") => H::AddOvf(false),
            _ if r.starts_with("sadd.with.overflow") => H::AddOvf(true),
            _ if r.starts_with("usub.with.overflow") => H::SubOvf(false),
            _ if r.starts_with("ssub.with.overflow") => H::SubOvf(true),
            _ if r.starts_with("umul.with.overflow") => H::MulOvf(false),
            _ if r.starts_with("smul.with.overflow") => H::MulOvf(true),
            _ if r.starts_with("fshl.") => H::Fshl,
            _ if r.starts_with("fshr.") => H::Fshr,
            _ if r.starts_with("ctpop.") => H::Ctpop,
            _ if r.starts_with("cttz.") => H::Cttz,
            _ if r.starts_with("ctlz.") => H::Ctlz,
            _ if r.starts_with("abs.") => H::Abs,
            _ if r.starts_with("bswap.") => H::Bswap,
            _ if r.starts_with("bitreverse.") => H::Bitrev,
            _ if r.starts_with("ucmp.") => H::UCmp,
            _ if r.starts_with("scmp.") => H::SCmp,
            _ if r.starts_with("x86.addcarry") => H::AddCarry,
            _ if r.starts_with("x86.subborrow") => H::SubBorrow,
            _ if r.starts_with("is.constant") => H::IsConst,
            _ if r.starts_with("expect") || r.starts_with("threadlocal") || r.starts_with("launder") || r.starts_with("strip.invariant") || r.starts_with("ssa.copy") || r.starts_with("ptrmask_") => H::RetArg0,
            _ if r.starts_with("trap") || r.starts_with("ubsantrap") => H::Abort,
            _ if r.starts_with("fptoui.sat") => H::FloatFn(1),
            _ if r.starts_with("fptosi.sat") => H::FloatFn(2),
            _ if r.starts_with("ceil") => H::FloatFn(3),
            _ if r.starts_with("floor") => H::FloatFn(4),
            _ if r.starts_with("fabs") => H::FloatFn(5),
            _ if r.starts_with("log2") => H::FloatFn(6),
            _ if r.starts_with("sqrt") => H::FloatFn(7),
            _ if r.starts_with("trunc.f") => H::FloatFn(8),
            _ if r.starts_with("round.f") => H::FloatFn(9),
            _ => H::Unknown,
        };
    }
    match n {
        "malloc" => return H::Malloc,
        "calloc" => return H::Calloc,
        "realloc" => return H::Realloc,
        "free" => return H::Free,
        "posix_memalign" => return H::PosixMemalign,
        "memcpy" | "memmove" => return H::Memcpy,
        "memset" => return H::Memset,
        "bcmp" | "memcmp" => return H::Memcmp,
        "strlen" => return H::Strlen,
        "abort" => return H::Abort,
        "__udivti3" => return H::UdivTi,
        "__umodti3" => return H::UmodTi,
        "__cxa_thread_atexit_impl" => return H::Nop,
        "log2" => return H::FloatFn(6),
        "ceil" => return H::FloatFn(3),
        "floor" => return H::FloatFn(4),
        _ => {}
    }
    if n.ends_with("12___rust_alloc") || n == "__rust_alloc" {
        return H::RustAlloc;
    }
    if n.ends_with("19___rust_alloc_zeroed") || n == "__rust_alloc_zeroed" {
        return H::RustAllocZ;
    }
    if n.ends_with("14___rust_dealloc") || n == "__rust_dealloc" {
        return H::RustDealloc;
    }
    if n.ends_with("14___rust_realloc") || n == "__rust_realloc" {
        return H::RustRealloc;
    }
    if n.contains("rust_no_alloc_shim") {
        return H::Nop;
    }
    if n.contains("4core9panicking") || n.contains("3std9panicking") || n.contains("17capacity_overflow") || n.contains("18handle_alloc_error") || n.contains("raw_vec12handle_error") || n.contains("rust_start_panic") || n.contains("begin_panic")
    {
        return H::Panic;
    }
    if declared {
        H::Unknown
    } else {
        H::Interp
    }
}

impl Machine {
    pub fn new(prog: Program, opts: Options) -> Machine {
        let handlers = prog.funcs.iter().map(|f| handler(&f.name, f.declared)).collect();
        Machine { prog: Arc::new(prog), handlers, opts }
    }
}

/// queries on a path before its solutions are enumerated, and how many of them at most
const SET_FIRST: u32 = 6;
const SET_MAX: usize = 12;
const SET_BITS: u32 = 10;

pub struct Exec<'m> {
    m: &'m Machine,
    pub pool: Pool,
    pub solver: Blaster,
    ev: Evaluator,
    // per path
    model: Model,
    weak: bool,
    pub end_at: std::time::Instant,
    set: Option<ModelSet>,
    set_ev: Vec<Evaluator>,
    set_wait: u32,
    set_next: u32,
    pub branch_timeout: u32,
    prefix: Vec<Dec>,
    di: usize,
    taken: Vec<Dec>,
    pc: Vec<T>,
    known_conds: FxMap<T, bool>,
    objs: Vec<Option<Obj>>,
    frames: Vec<Frame>,
    nvars: u32,
    inputs: Vec<(T, u32, bool)>,
    choose_vals: Vec<(u32, u128)>,
    order: Vec<(bool, usize)>,
    observed: Vec<(T, u32)>,
    hs: Vec<T>,
    policy: u32,
    known_tag: Option<u32>,
    pub new_work: Vec<Work>,
    pub stats: PathStats,
    // accumulated over paths
    pub covered: BTreeMap<u32, u64>,
    cover_asked: HashMap<u32, u32>,
    pub funcs_hit: HashSet<usize>,
    pub blocks_hit: HashMap<usize, HashSet<u32>>,
    pub violations: Vec<Violation>,
    pub check_ids: BTreeMap<u32, u64>,
    /// checks the solver gave no answer for
    pub undecided: BTreeMap<u32, u64>,
    pub log: Vec<String>,
    pub unsat_samples: Vec<Vec<T>>,
    /// (function, block) -> queries, solver time
    pub sites: HashMap<(usize, u32), (u64, u64)>,
    pub stack_fail: Vec<String>,
    /// state after the part of an entry that no input influences
    snaps: HashMap<usize, (Vec<Option<Obj>>, Vec<Frame>, u32)>,
    entry: usize,
}

impl<'m> Exec<'m> {
    pub fn new(m: &'m Machine, timeout_ms: u32, exact_mul: u32) -> Exec<'m> {
        Exec {
            m,
            pool: Pool::new(),
            solver: Blaster::new(timeout_ms, exact_mul),
            ev: Evaluator::new(),
            model: Model::default(),
            weak: false,
            end_at: std::time::Instant::now() + std::time::Duration::from_secs(1 << 20),
            set: None,
            set_ev: vec![],
            set_wait: 0,
            set_next: SET_FIRST,
            branch_timeout: 3000,
            undecided: BTreeMap::new(),
            prefix: vec![],
            di: 0,
            taken: vec![],
            pc: vec![],
            known_conds: FxMap::default(),
            objs: vec![],
            frames: vec![],
            nvars: 0,
            inputs: vec![],
            choose_vals: vec![],
            order: vec![],
            observed: vec![],
            hs: vec![],
            policy: 0,
            known_tag: None,
            new_work: vec![],
            stats: PathStats::default(),
            covered: BTreeMap::new(),
            cover_asked: HashMap::new(),
            funcs_hit: HashSet::new(),
            blocks_hit: HashMap::new(),
            violations: vec![],
            check_ids: BTreeMap::new(),
            log: vec![],
            unsat_samples: vec![],
            sites: HashMap::new(),
            stack_fail: vec![],
            snaps: HashMap::new(),
            entry: 0,
        }
    }

    /// Drop the accumulated terms and solver state (keeps statistics in the caller's hands).
    pub fn renew(&mut self, timeout_ms: u32, exact_mul: u32) {
        let st = self.solver.stats.clone();
        self.pool = Pool::new();
        self.solver = Blaster::new(timeout_ms, exact_mul);
        self.solver.stats = st;
        self.ev.clear();
        self.unsat_samples.clear();
    }

    pub fn run_path(&mut self, entry: usize, work: Work) -> (End, Trace) {
        self.model = work.model;
        self.weak = work.weak;
        self.set_ev = work.set.iter().flat_map(|s| s.models.iter()).map(|_| Evaluator::sparse()).collect();
        self.set = work.set;
        self.set_wait = 0;
        self.set_next = SET_FIRST;
        self.ev.reset();
        self.prefix = work.prefix;
        self.di = 0;
        self.taken.clear();
        self.pc.clear();
        self.known_conds.clear();
        self.objs.clear();
        self.objs.resize_with(self.m.prog.globals.len(), || None);
        self.frames.clear();
        self.nvars = 0;
        self.inputs.clear();
        self.choose_vals.clear();
        self.order.clear();
        self.observed.clear();
        self.hs.clear();
        self.policy = 0;
        self.known_tag = None;
        self.new_work.clear();
        self.stack_fail.clear();
        self.entry = entry;
        match self.snaps.get(&entry) {
            Some((o, f, n)) => {
                self.nvars = *n;
                self.objs = o.clone();
                self.frames = f.clone();
            }
            None => self.push_frame(entry, vec![], None, None),
        }
        let mut end = match self.run() {
            Ok(()) => End::Exit,
            Err(e) => e,
        };
        if self.weak && matches!(end, End::Fail(_)) {
            // the path may be infeasible: ask for an input that takes it
            match self.solve(None, self.solver.timeout_ms) {
                (Res::Sat, Some(m)) => self.set_model(m),
                (Res::Unsat, _) => {
                    end = End::Infeasible
                }
                _ => end = End::Stuck("a failure whose path condition the solver did not decide".into()),
            }
        }
        self.stack_fail = self.stack();
        if self.m.opts.trace && matches!(end, End::Infeasible) {
            eprintln!("INFEASIBLE {:?} {:?}", self.taken, self.stack());
        }
        if let End::Fail(msg) = &end {
            let v = self.violation(msg.clone());
            self.violations.push(v);
        }
        let tr = self.trace_of();
        (end, tr)
    }

    fn violation(&mut self, msg: String) -> Violation {
        let stack = self.stack();
        let trace = self.trace_of();
        let uninit = self.pc.iter().any(|t| self.pool.uninit(*t));
        Violation { msg, stack, trace, uninit }
    }

    fn stack(&self) -> Vec<String> {
        self.frames.iter().rev().map(|f| demangle(&self.m.prog.funcs[f.f].name)).collect()
    }

    fn trace_of(&mut self) -> Trace {
        let mut inputs = vec![];
        for (ch, i) in self.order.clone() {
            if ch {
                let (w, v) = self.choose_vals[i];
                inputs.push(Input { w, val: Bv::from_u128(v, w), choose: true });
            } else {
                let (t, w, _) = self.inputs[i];
                let v = self.ev.eval(&self.pool, &self.model, t);
                inputs.push(Input { w, val: v, choose: false });
            }
        }
        let mut observed = vec![];
        for (t, _) in self.observed.clone() {
            let v = self.ev.eval(&self.pool, &self.model, t);
            observed.push(v.low128() as u64);
        }
        Trace { inputs, observed, known: self.known_tag, weak: self.weak }
    }

    fn push_frame(&mut self, f: usize, args: Vec<Val>, dst: Option<u32>, cont: Option<u32>) {
        let fun = &self.m.prog.funcs[f];
        let mut regs = vec![Val::Undef; fun.nregs as usize];
        for ((_, r), v) in fun.params.iter().zip(args) {
            regs[*r as usize] = v;
        }
        if self.funcs_hit.insert(f) || true {
            self.blocks_hit.entry(f).or_default().insert(0);
        }
        self.frames.push(Frame { f, blk: 0, prev: u32::MAX, pc: 0, regs, allocas: vec![], dst, cont });
    }

    // ---------------------------------------------------------------- values

    fn mkv(&self, t: T) -> Val {
        match self.pool.as_u128(t) {
            Some(v) if self.pool.w(t) <= 128 => Val::C(v),
            _ => Val::T(t),
        }
    }
    fn term(&mut self, v: &Val, w: u32) -> T {
        match v {
            Val::C(c) => self.pool.con(*c, w),
            Val::T(t) => {
                debug_assert_eq!(self.pool.w(*t), w);
                *t
            }
            Val::Undef => self.pool.con(0, w),
            Val::Agg(a) => {
                // vector reinterpretation
                let n = a.len() as u32;
                let ew = w / n;
                let mut r: Option<T> = None;
                for x in a.iter() {
                    let t = self.term(x, ew);
                    r = Some(match r {
                        None => t,
                        Some(l) => self.pool.concat(t, l),
                    });
                }
                r.unwrap()
            }
        }
    }
    fn opd(&self, o: &Opd) -> Val {
        match o {
            Opd::Con(v) => v.clone(),
            Opd::Reg(r) => self.frames.last().unwrap().regs[*r as usize].clone(),
        }
    }
    fn set(&mut self, r: u32, v: Val) {
        self.frames.last_mut().unwrap().regs[r as usize] = v;
    }

    // ---------------------------------------------------------------- decisions

    fn assert_cond(&mut self, c: T, add: bool) {
        self.known_conds.insert(c, true);
        let n = self.pool.not(c);
        self.known_conds.insert(n, false);
        if add {
            self.pc.push(c);
        }
    }

    fn set_model(&mut self, m: Model) {
        self.model = m;
        self.weak = false;
        self.ev.reset();
    }

    /// Decides the path condition with an extra conjunct.
    fn solve(&mut self, extra: Option<T>, timeout: u32) -> (Res, Option<Model>) {
        let mut c = self.pc.clone();
        c.extend(extra);
        let t0 = std::time::Instant::now();
        let old = self.solver.timeout_ms;
        let left = self.end_at.saturating_duration_since(t0).as_millis() as u64 + 200;
        self.solver.timeout_ms = timeout.min(left.min(1 << 30) as u32);
        let (r, m) = self.solver.check(&self.pool, &c, true);
        self.solver.timeout_ms = old;
        let fr = self.frames.last().map(|f| (f.f, f.blk)).unwrap_or((0, 0));
        let e = self.sites.entry(fr).or_insert((0, 0));
        e.0 += 1;
        e.1 += t0.elapsed().as_micros() as u64;
        if r == Res::Unknown && self.m.opts.trace {
            eprintln!("UNDECIDED taken {:?}", self.taken);
            for t in &c {
                eprintln!("   {}", self.pool.to_string(*t, 14));
            }
        }
        (r, m)
    }

    fn push_work(&mut self, d: Dec, model: Model, weak: bool) {
        self.push_work_set(d, model, weak, None)
    }
    fn push_work_set(&mut self, d: Dec, model: Model, weak: bool, set: Option<ModelSet>) {
        let mut prefix = self.taken.clone();
        prefix.push(d);
        self.new_work.push(Work { prefix, model, weak, set });
        self.stats.forks += 1;
    }

    // ---------------------------------------------------------------- complete sets of solutions

    fn in_time(&self) -> R<()> {
        if std::time::Instant::now() > self.end_at {
            return Err(End::Late);
        }
        Ok(())
    }

    /// The set of solutions, if there is one and it settles terms that depend on `sup`.
    fn settles(&mut self, t: T) -> bool {
        let sup = self.pool.sup(t);
        if let Some(s) = &self.set {
            return sup & !s.vars == 0;
        }
        if self.set_wait < self.set_next {
            return false;
        }
        self.set_wait = 0;
        self.set_next *= 2;
        let vars = self.pc.iter().fold(0, |a, c| a | self.pool.sup(*c));
        if vars >> 127 != 0 || sup & !vars != 0 {
            return false;
        }
        let list: Vec<T> = self.inputs.iter().map(|x| x.0).filter(|t| self.pool.sup(*t) & vars != 0).collect();
        if list.iter().map(|t| self.pool.w(*t)).sum::<u32>() > SET_BITS {
            return false;
        }
        self.enumerate(vars, list, SET_MAX, self.branch_timeout)
    }
    /// Looks for all solutions of the path condition; keeps them if there are at most `max`.
    fn enumerate(&mut self, vars: u128, list: Vec<T>, max: usize, timeout: u32) -> bool {
        let mut models: Vec<Arc<Model>> = vec![];
        let mut extra: Option<T> = None;
        loop {
            match self.solve(extra, timeout) {
                (Res::Sat, Some(m)) => {
                    if models.len() == max {
                        return false;
                    }
                    let mut full = Model::default();
                    let mut same = self.pool.tru();
                    for v in &list {
                        let Node::Var(s, k) = *self.pool.node(*v) else { return false };
                        let w = self.pool.w(*v);
                        let b = m.vals.get(&(s, k)).cloned().unwrap_or_else(|| Bv::zero(w));
                        let c = self.pool.con_bv(b.clone(), w);
                        let e = self.pool.eq(*v, c);
                        same = self.pool.bin(Bop::And, same, e);
                        full.vals.insert((s, k), b);
                    }
                    let n = self.pool.not(same);
                    extra = Some(match extra {
                        None => n,
                        Some(x) => self.pool.bin(Bop::And, x, n),
                    });
                    models.push(Arc::new(full));
                }
                (Res::Unsat, _) => break,
                _ => return false,
            }
        }
        if self.m.opts.trace {
            eprintln!("SOLUTIONS {}", models.len());
        }
        if models.is_empty() {
            return false;
        }
        self.set_ev = models.iter().map(|_| Evaluator::sparse()).collect();
        if self.weak {
            let m = (*models[0]).clone();
            self.set_model(m);
        }
        self.set = Some(ModelSet { vars, models });
        true
    }
    fn set_values(&mut self, t: T) -> Vec<Bv> {
        let s = self.set.as_ref().unwrap();
        let mut r = vec![];
        for (m, ev) in s.models.iter().zip(self.set_ev.iter_mut()) {
            r.push(ev.eval(&self.pool, m, t));
        }
        r
    }
    /// Keeps the solutions for which `t` has the value of the path's input; the others are returned by value.
    fn set_split(&mut self, t: T) -> (Bv, Vec<(Bv, ModelSet)>) {
        let vals = self.set_values(t);
        let here = self.ev.eval(&self.pool, &self.model, t);
        let s = self.set.take().unwrap();
        let evs = std::mem::take(&mut self.set_ev);
        let mut keep = ModelSet { vars: s.vars, models: vec![] };
        let mut rest: Vec<(Bv, ModelSet)> = vec![];
        for ((v, m), ev) in vals.into_iter().zip(s.models).zip(evs) {
            if v == here {
                keep.models.push(m);
                self.set_ev.push(ev);
            } else if let Some(x) = rest.iter_mut().find(|x| x.0 == v) {
                x.1.models.push(m);
            } else {
                rest.push((v, ModelSet { vars: s.vars, models: vec![m] }));
            }
        }
        self.set = Some(keep);
        (here, rest)
    }
    fn with_set(&self, s: &ModelSet) -> Model {
        let mut m = self.model.clone();
        for (k, v) in &s.models[0].vals {
            m.vals.insert(*k, v.clone());
        }
        m
    }
    /// A condition with inputs outside the set was added to the path.
    fn set_outgrown(&mut self, c: T) {
        if let Some(s) = &self.set {
            if self.pool.sup(c) & !s.vars != 0 {
                self.set = None;
                self.set_ev.clear();
            }
        }
    }

    fn branch(&mut self, cond: T) -> R<bool> {
        if let Some(v) = self.pool.as_u128(cond) {
            return Ok(v == 1);
        }
        if let Some(b) = self.known_conds.get(&cond) {
            return Ok(*b);
        }
        let n = self.pool.not(cond);
        if self.di < self.prefix.len() {
            let d = match self.prefix[self.di] {
                Dec::B(b) => b,
                _ => return Err(End::Stuck("decision mismatch (branch)".into())),
            };
            self.di += 1;
            self.taken.push(Dec::B(d));
            self.assert_cond(if d { cond } else { n }, true);
            return Ok(d);
        }
        self.in_time()?;
        if self.settles(cond) {
            let (here, rest) = self.set_split(cond);
            let v = here == Bv::S(1);
            let forked = !rest.is_empty();
            for (b, s) in rest {
                let m = self.with_set(&s);
                self.push_work_set(Dec::B(b == Bv::S(1)), m, false, Some(s));
            }
            self.taken.push(Dec::B(v));
            self.assert_cond(if v { cond } else { n }, forked);
            return Ok(v);
        }
        self.set_wait += 1;
        let bt = self.branch_timeout;
        let v;
        let forked;
        if self.weak {
            // no input is known for this path yet
            let (r1, m1) = self.solve(Some(cond), bt);
            if r1 == Res::Unsat {
                v = false;
                forked = false;
            } else {
                let (r0, m0) = self.solve(Some(n), bt);
                v = true;
                forked = r0 != Res::Unsat;
                if forked {
                    if r0 == Res::Unknown {
                        self.stats.undecided_forks += 1;
                    }
                    let wk = m0.is_none();
                    let m = m0.unwrap_or_else(|| self.model.clone());
                    self.push_work(Dec::B(false), m, wk);
                }
                if let Some(m) = m1 {
                    self.set_model(m);
                } else {
                    self.stats.undecided_forks += 1;
                }
            }
        } else {
            v = self.ev.eval(&self.pool, &self.model, cond) == Bv::S(1);
            let other = if v { n } else { cond };
            let (r, m) = self.solve(Some(other), bt);
            forked = r != Res::Unsat;
            if forked {
                if r == Res::Unknown {
                    self.stats.undecided_forks += 1;
                }
                let wk = m.is_none();
                let m = m.unwrap_or_else(|| self.model.clone());
                self.push_work(Dec::B(!v), m, wk);
            }
        }
        if self.weak && self.stats.undecided_forks > 12 {
            return Err(End::Stuck("too many branches the solver did not decide".into()));
        }
        self.taken.push(Dec::B(v));
        if forked {
            self.set_outgrown(cond);
        }
        self.assert_cond(if v { cond } else { n }, forked);
        Ok(v)
    }

    fn concretize(&mut self, v: &Val, w: u32) -> R<u128> {
        match v {
            Val::C(c) => Ok(*c),
            Val::T(t) => self.concretize_t(*t),
            Val::Undef => Ok(0),
            Val::Agg(_) => {
                let t = self.term(v, w);
                match self.mkv(t) {
                    Val::C(c) => Ok(c),
                    _ => self.concretize_t(t),
                }
            }
        }
    }

    fn concretize_t(&mut self, t: T) -> R<u128> {
        if let Some(v) = self.pool.as_u128(t) {
            return Ok(v);
        }
        let w = self.pool.w(t);
        if self.di < self.prefix.len() {
            let d = match self.prefix[self.di] {
                Dec::V(b) => b,
                _ => return Err(End::Stuck("decision mismatch (value)".into())),
            };
            self.di += 1;
            self.taken.push(Dec::V(d));
            let k = self.pool.con(d, w);
            let e = self.pool.eq(t, k);
            self.assert_cond(e, true);
            return Ok(d);
        }
        self.in_time()?;
        if self.settles(t) {
            let (here, rest) = self.set_split(t);
            let forked = !rest.is_empty();
            for (b, s) in rest {
                let m = self.with_set(&s);
                self.push_work_set(Dec::V(b.low128()), m, false, Some(s));
            }
            let d = here.low128();
            self.taken.push(Dec::V(d));
            let k = self.pool.con(d, w);
            let e = self.pool.eq(t, k);
            self.assert_cond(e, forked);
            return Ok(d);
        }
        self.set_wait += 2;
        if self.weak {
            match self.solve(None, self.solver.timeout_ms) {
                (Res::Sat, Some(m)) => self.set_model(m),
                (Res::Unsat, _) => return Err(End::Infeasible),
                _ => return Err(End::Stuck("solver gave no answer within its limit".into())),
            }
        }
        let v0 = self.ev.eval(&self.pool, &self.model, t).low128();
        let k = self.pool.con(v0, w);
        let e0 = self.pool.eq(t, k);
        let ne = self.pool.not(e0);
        let mut excl = ne;
        let mut n = 0;
        while self.pool.as_u128(excl) != Some(0) {
            let (r, m) = self.solve(Some(excl), self.solver.timeout_ms);
            match r {
                Res::Unknown => return Err(End::Stuck("solver gave no answer within its limit".into())),
                Res::Unsat => break,
                Res::Sat => {
                    let m = m.unwrap();
                    let mut ev = Evaluator::sparse();
                    let v = ev.eval(&self.pool, &m, t).low128();
                    self.push_work(Dec::V(v), m, false);
                    let k = self.pool.con(v, w);
                    let e = self.pool.eq(t, k);
                    let ne = self.pool.not(e);
                    excl = self.pool.bin(Bop::And, excl, ne);
                    n += 1;
                    if n > self.m.opts.max_values {
                        return Err(End::Stuck(format!("more than {} values for a concretised term in {:?}: {}", n, self.stack().first(), self.pool.to_string(t, 6))));
                    }
                }
            }
        }
        self.taken.push(Dec::V(v0));
        if n > 0 {
            self.set_outgrown(t);
        }
        self.assert_cond(e0, n > 0);
        Ok(v0)
    }

    fn choose(&mut self, n: u64) -> R<u64> {
        if n == 0 {
            return Err(End::Infeasible);
        }
        if self.di < self.prefix.len() {
            let d = match self.prefix[self.di] {
                Dec::V(b) => b,
                _ => return Err(End::Stuck("decision mismatch (choose)".into())),
            };
            self.di += 1;
            self.taken.push(Dec::V(d));
            return Ok(d as u64);
        }
        for k in (1..n).rev() {
            let mut p = self.taken.clone();
            p.push(Dec::V(k as u128));
            self.new_work.push(Work { prefix: p, model: self.model.clone(), weak: self.weak, set: self.set.clone() });
        }
        self.taken.push(Dec::V(0));
        Ok(0)
    }

    fn assume(&mut self, c: T) -> R<()> {
        match self.pool.as_u128(c) {
            Some(1) => return Ok(()),
            Some(_) => return Err(End::Infeasible),
            None => {}
        }
        if let Some(b) = self.known_conds.get(&c) {
            return if *b { Ok(()) } else { Err(End::Infeasible) };
        }
        if self.di < self.prefix.len() {
            self.assert_cond(c, true);
            return Ok(());
        }
        if self.set.is_some() && self.settles(c) {
            let vals = self.set_values(c);
            let Some(i) = vals.iter().position(|v| *v == Bv::S(1)) else { return Err(End::Infeasible) };
            let m = self.with_set(&ModelSet { vars: 0, models: vec![self.set.as_ref().unwrap().models[i].clone()] });
            if self.ev.eval(&self.pool, &self.model, c) != Bv::S(1) {
                self.set_model(m);
            }
            self.set_split(c);
            self.assert_cond(c, true);
            return Ok(());
        }
        if self.weak || self.ev.eval(&self.pool, &self.model, c) != Bv::S(1) {
            match self.solve(Some(c), self.solver.timeout_ms) {
                (Res::Sat, Some(m)) => self.set_model(m),
                (Res::Unsat, _) => return Err(End::Infeasible),
                _ => self.weak = true,
            }
        }
        self.set_outgrown(c);
        self.assert_cond(c, true);
        Ok(())
    }

    fn check(&mut self, c: T, id: u32) -> R<()> {
        if self.di < self.prefix.len() {
            // already decided by the path this one was forked from
            if self.pool.as_u128(c).is_none() {
                self.assert_cond(c, false);
            }
            return Ok(());
        }
        self.stats.checks += 1;
        *self.check_ids.entry(id).or_insert(0) += 1;
        let mut failed = None;
        match self.pool.as_u128(c) {
            Some(1) => {
                self.stats.checks_trivial += 1;
                return Ok(());
            }
            Some(_) => return Err(End::Fail(format!("check {} failed", id))),
            None => {
                self.in_time()?;
                let n = self.pool.not(c);
                if !self.weak && self.ev.eval(&self.pool, &self.model, n) == Bv::S(1) {
                    failed = Some(self.model.clone());
                } else if self.settles(c) {
                    self.stats.checks_by_set += 1;
                    if let Some(i) = self.set_values(c).iter().position(|v| *v != Bv::S(1)) {
                        let s = ModelSet { vars: 0, models: vec![self.set.as_ref().unwrap().models[i].clone()] };
                        failed = Some(self.with_set(&s));
                    }
                } else {
                    self.set_wait += 1;
                    match self.solve(Some(n), self.solver.timeout_ms) {
                        (Res::Sat, m) => failed = m,
                        (Res::Unsat, _) => {
                            if self.unsat_samples.len() < 64 {
                                let mut s = self.pc.clone();
                                s.push(n);
                                self.unsat_samples.push(s);
                            }
                        }
                        _ => {
                            self.stats.undecided_checks += 1;
                            *self.undecided.entry(id).or_insert(0) += 1;
                            if self.stats.undecided_checks > 3 {
                                return Err(End::Stuck("checks the solver did not decide".into()));
                            }
                            return Ok(());
                        }
                    }
                }
            }
        }
        if let Some(m) = failed {
            self.set_model(m);
            return Err(End::Fail(format!("check {} failed", id)));
        }
        self.assert_cond(c, false);
        Ok(())
    }

    // ---------------------------------------------------------------- memory

    fn alloc(&mut self, size: u64, heap: bool, init: Option<u8>) -> u64 {
        let id = self.objs.len() as u64;
        let n = size as usize;
        let tag = match init {
            Some(_) => vec![0u32; n],
            None => vec![UNINIT; n],
        };
        self.objs.push(Some(Obj { data: vec![init.unwrap_or(0); n], tag, alive: true, ro: false, heap }));
        obj_addr(id)
    }

    fn kill(&mut self, id: u32) {
        if let Some(o) = &mut self.objs[id as usize] {
            o.alive = false;
            o.data = Vec::new();
            o.tag = Vec::new();
        }
    }

    /// object id and offset for an access of n bytes
    fn resolve(&mut self, addr: u64, n: u64, write: bool) -> R<(usize, usize)> {
        if n == 0 {
            return Ok((usize::MAX, 0));
        }
        let id = (addr >> 32).wrapping_sub(1) as usize;
        if addr >> 32 == 0 || id >= self.objs.len() {
            return Err(End::Fail(format!("invalid memory access at address {:#x}", addr)));
        }
        let off = (addr & 0xffff_ffff).wrapping_sub(BIAS) as i64;
        if self.objs[id].is_none() {
            let g = &self.m.prog.globals[id];
            let mut tag = vec![0u32; g.bytes.len()];
            for (i, u) in g.undef.iter().enumerate() {
                if *u {
                    tag[i] = UNINIT;
                }
            }
            self.objs[id] = Some(Obj { data: g.bytes.clone(), tag, alive: true, ro: g.constant, heap: false });
        }
        let o = self.objs[id].as_ref().unwrap();
        if !o.alive {
            return Err(End::Fail("access to freed memory".into()));
        }
        if off < 0 || off as u64 + n > o.data.len() as u64 {
            return Err(End::Fail(format!("out-of-bounds memory access: offset {} size {} in an object of {} bytes", off, n, o.data.len())));
        }
        if write && o.ro {
            return Err(End::Fail("write to read-only memory".into()));
        }
        Ok((id, off as usize))
    }

    fn addr(&mut self, v: &Val) -> R<u64> {
        Ok(self.concretize(v, 64)? as u64)
    }

    fn load_bits(&mut self, addr: u64, nbytes: usize) -> R<Val> {
        let (id, off) = self.resolve(addr, nbytes as u64, false)?;
        if nbytes == 0 {
            return Ok(Val::C(0));
        }
        let o = self.objs[id].as_ref().unwrap();
        let tags = &o.tag[off..off + nbytes];
        if nbytes <= 16 && tags.iter().all(|t| *t == 0) {
            let mut r = 0u128;
            for k in (0..nbytes).rev() {
                r = (r << 8) | o.data[off + k] as u128;
            }
            return Ok(Val::C(r));
        }
        // materialise uninitialised bytes
        if tags.iter().any(|t| *t == UNINIT) {
            let mut k = 0;
            while k < nbytes {
                if self.objs[id].as_ref().unwrap().tag[off + k] == UNINIT {
                    let mut e = k;
                    while e < nbytes && self.objs[id].as_ref().unwrap().tag[off + e] == UNINIT {
                        e += 1;
                    }
                    let n = e - k;
                    let s = self.nvars;
                    self.nvars += 1;
                    let t = self.pool.var(s, 1, 8 * n as u32);
                    let o = self.objs[id].as_mut().unwrap();
                    for j in 0..n {
                        o.tag[off + k + j] = t.0 + 1;
                        o.data[off + k + j] = j as u8;
                    }
                    k = e;
                } else {
                    k += 1;
                }
            }
        }
        let cells: Vec<(u32, u8)> = {
            let o = self.objs[id].as_ref().unwrap();
            (0..nbytes).map(|k| (o.tag[off + k], o.data[off + k])).collect()
        };
        // group runs
        let mut r: Option<T> = None;
        let mut k = 0;
        while k < nbytes {
            let (tg, d) = cells[k];
            let mut e = k + 1;
            let piece;
            if tg == 0 {
                while e < nbytes && cells[e].0 == 0 {
                    e += 1;
                }
                let limbs: Vec<u64> = {
                    let n = e - k;
                    let mut l = vec![0u64; (n + 7) / 8];
                    for j in 0..n {
                        l[j / 8] |= (cells[k + j].1 as u64) << (8 * (j % 8));
                    }
                    l
                };
                let w = 8 * (e - k) as u32;
                piece = self.pool.con_bv(Bv::from_limbs(limbs, w), w);
            } else {
                while e < nbytes && cells[e].0 == tg && cells[e].1 as usize == d as usize + (e - k) {
                    e += 1;
                }
                let t = T(tg - 1);
                let tw = self.pool.w(t);
                let lo = 8 * d as u32;
                let w = 8 * (e - k) as u32;
                let avail = tw.saturating_sub(lo);
                let x = if avail >= w {
                    self.pool.extract(t, lo, w)
                } else {
                    let x = self.pool.extract(t, lo, avail);
                    self.pool.zext(x, w)
                };
                piece = x;
            }
            r = Some(match r {
                None => piece,
                Some(l) => self.pool.concat(piece, l),
            });
            k = e;
        }
        Ok(self.mkv(r.unwrap()))
    }

    fn load(&mut self, ty: &Ty, addr: u64) -> R<Val> {
        match ty {
            Ty::Struct(..) | Ty::Array(..) | Ty::Vector(..) => {
                let n = ty.count();
                let mut v = Vec::with_capacity(n);
                for i in 0..n {
                    let e = ty.elem(i);
                    v.push(self.load(&e, addr.wrapping_add(ty.field_offset(i)))?);
                }
                Ok(Val::Agg(v.into()))
            }
            _ => {
                let n = ty.store_size() as usize;
                let v = self.load_bits(addr, n)?;
                let w = ty.bits();
                if w as usize != n * 8 {
                    match v {
                        Val::C(c) => Ok(Val::C(c & mask(w))),
                        Val::T(t) => {
                            let e = self.pool.extract(t, 0, w);
                            Ok(self.mkv(e))
                        }
                        x => Ok(x),
                    }
                } else {
                    Ok(v)
                }
            }
        }
    }

    /// A symbolic index into a small constant table becomes a selection instead of a case split.
    fn table_load(&mut self, ty: &Ty, p: &Val) -> R<Option<Val>> {
        let t = match p {
            Val::T(t) => *t,
            _ => return Ok(None),
        };
        if matches!(ty, Ty::Struct(..) | Ty::Array(..) | Ty::Vector(..)) {
            return Ok(None);
        }
        let n = ty.store_size() as u128;
        let (lo, hi) = self.pool.range(t);
        if n == 0 || !n.is_power_of_two() || hi < lo || hi - lo > 64 * n || lo >> 32 != hi >> 32 || lo >> 32 == 0 {
            return Ok(None);
        }
        if n > 1 {
            let l = self.pool.extract(t, 0, n.trailing_zeros());
            if self.pool.as_u128(l) != Some(lo % n) {
                return Ok(None);
            }
        }
        let id = (lo >> 32) as usize - 1;
        match self.m.prog.globals.get(id) {
            Some(g) if g.constant => {}
            _ => return Ok(None),
        }
        let off = ((lo & 0xffff_ffff) as u64).wrapping_sub(BIAS);
        let end = ((hi & 0xffff_ffff) as u64).wrapping_sub(BIAS) as i64;
        if (off as i64) < 0 || end + n as i64 > self.m.prog.globals[id].bytes.len() as i64 {
            return Ok(None);
        }
        let w = ty.bits();
        let mut r: Option<T> = None;
        let mut a = lo;
        while a <= hi {
            let v = self.load(ty, a as u64)?;
            let v = self.term(&v, w);
            r = Some(match r {
                None => v,
                Some(x) => {
                    let k = self.pool.con(a, 64);
                    let e = self.pool.eq(t, k);
                    self.pool.ite(e, v, x)
                }
            });
            a += n;
        }
        Ok(Some(self.mkv(r.unwrap())))
    }

    fn store(&mut self, ty: &Ty, v: &Val, addr: u64) -> R<()> {
        match ty {
            Ty::Struct(..) | Ty::Array(..) | Ty::Vector(..) => {
                let n = ty.count();
                if let Val::Agg(a) = v {
                    for i in 0..n {
                        let e = ty.elem(i);
                        self.store(&e, &a[i], addr.wrapping_add(ty.field_offset(i)))?;
                    }
                }
                Ok(())
            }
            _ => {
                let n = ty.store_size() as usize;
                let (id, off) = self.resolve(addr, n as u64, true)?;
                let w = ty.bits();
                match v {
                    Val::C(c) => {
                        let o = self.objs[id].as_mut().unwrap();
                        for k in 0..n {
                            o.data[off + k] = (c >> (8 * k)) as u8;
                            o.tag[off + k] = 0;
                        }
                    }
                    Val::Undef => {
                        let o = self.objs[id].as_mut().unwrap();
                        for k in 0..n {
                            o.tag[off + k] = UNINIT;
                        }
                    }
                    Val::T(t) => {
                        let t = if w as usize != 8 * n { self.pool.zext(*t, 8 * n as u32) } else { *t };
                        if let Some(c) = self.pool.as_u128(t) {
                            return self.store(ty, &Val::C(c), addr);
                        }
                        let o = self.objs[id].as_mut().unwrap();
                        for k in 0..n {
                            o.data[off + k] = k as u8;
                            o.tag[off + k] = t.0 + 1;
                        }
                    }
                    Val::Agg(_) => return Err(End::Stuck("aggregate store as scalar".into())),
                }
                Ok(())
            }
        }
    }

    fn memcpy(&mut self, dst: u64, src: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (si, so) = self.resolve(src, n, false)?;
        let (di, dof) = self.resolve(dst, n, true)?;
        let n = n as usize;
        if si == di {
            let o = self.objs[si].as_mut().unwrap();
            o.data.copy_within(so..so + n, dof);
            o.tag.copy_within(so..so + n, dof);
        } else {
            let (d, t) = {
                let o = self.objs[si].as_ref().unwrap();
                (o.data[so..so + n].to_vec(), o.tag[so..so + n].to_vec())
            };
            let o = self.objs[di].as_mut().unwrap();
            o.data[dof..dof + n].copy_from_slice(&d);
            o.tag[dof..dof + n].copy_from_slice(&t);
        }
        Ok(())
    }

    // ---------------------------------------------------------------- arithmetic

    fn binop(&mut self, k: BinK, w: u32, a: &Val, b: &Val) -> R<Val> {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let m = mask(w);
            let r = match k {
                BinK::Add => x.wrapping_add(y) & m,
                BinK::Sub => x.wrapping_sub(y) & m,
                BinK::Mul => x.wrapping_mul(y) & m,
                BinK::And => x & y,
                BinK::Or => x | y,
                BinK::Xor => x ^ y,
                BinK::UDiv | BinK::URem | BinK::SDiv | BinK::SRem if y == 0 => {
                    return Err(End::Fail("division by zero (undefined behaviour)".into()))
                }
                BinK::UDiv => x / y,
                BinK::URem => x % y,
                BinK::SDiv => (sext128(x, w).wrapping_div(sext128(y, w)) as u128) & m,
                BinK::SRem => (sext128(x, w).wrapping_rem(sext128(y, w)) as u128) & m,
                BinK::Shl => {
                    if y >= w as u128 {
                        0
                    } else {
                        (x << y) & m
                    }
                }
                BinK::LShr => {
                    if y >= w as u128 {
                        0
                    } else {
                        x >> y
                    }
                }
                BinK::AShr => {
                    let y = y.min(w as u128 - 1);
                    ((sext128(x, w) >> y) as u128) & m
                }
                BinK::FAdd | BinK::FSub | BinK::FMul | BinK::FDiv | BinK::FRem => {
                    return Ok(Val::C(float_bin(k, w, x, y)));
                }
            };
            return Ok(Val::C(r));
        }
        if matches!(k, BinK::FAdd | BinK::FSub | BinK::FMul | BinK::FDiv | BinK::FRem) {
            let x = self.concretize(a, w)?;
            let y = self.concretize(b, w)?;
            return Ok(Val::C(float_bin(k, w, x, y)));
        }
        let mut bv = b.clone();
        if matches!(k, BinK::Shl | BinK::LShr | BinK::AShr) && self.policy & 2 != 0 {
            if let Val::T(_) = b {
                bv = Val::C(self.concretize(b, w)?);
            }
        }
        let x = self.term(a, w);
        let y = self.term(&bv, w);
        if matches!(k, BinK::UDiv | BinK::URem | BinK::SDiv | BinK::SRem) {
            let z = self.pool.con(0, w);
            let e = self.pool.eq(y, z);
            if self.branch(e)? {
                return Err(End::Fail("division by zero (undefined behaviour)".into()));
            }
        }
        let op = match k {
            BinK::Add => Bop::Add,
            BinK::Sub => Bop::Sub,
            BinK::Mul => Bop::Mul,
            BinK::UDiv => Bop::UDiv,
            BinK::SDiv => Bop::SDiv,
            BinK::URem => Bop::URem,
            BinK::SRem => Bop::SRem,
            BinK::Shl => Bop::Shl,
            BinK::LShr => Bop::LShr,
            BinK::AShr => Bop::AShr,
            BinK::And => Bop::And,
            BinK::Or => Bop::Or,
            BinK::Xor => Bop::Xor,
            _ => unreachable!(),
        };
        let r = self.pool.bin(op, x, y);
        Ok(self.mkv(r))
    }

    fn icmp(&mut self, p: u8, w: u32, a: &Val, b: &Val) -> Val {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let (sx, sy) = (sext128(x, w), sext128(y, w));
            let r = match p {
                0 => x == y,
                1 => x != y,
                2 => x > y,
                3 => x >= y,
                4 => x < y,
                5 => x <= y,
                6 => sx > sy,
                7 => sx >= sy,
                8 => sx < sy,
                _ => sx <= sy,
            };
            return Val::C(r as u128);
        }
        let x = self.term(a, w);
        let y = self.term(b, w);
        let r = match p {
            0 => self.pool.eq(x, y),
            1 => self.pool.ne(x, y),
            2 => self.pool.ult(y, x),
            3 => self.pool.ule(y, x),
            4 => self.pool.ult(x, y),
            5 => self.pool.ule(x, y),
            6 => self.pool.slt(y, x),
            7 => self.pool.sle(y, x),
            8 => self.pool.slt(x, y),
            _ => self.pool.sle(x, y),
        };
        self.mkv(r)
    }

    fn fcmp(&mut self, pred: &str, w: u32, a: &Val, b: &Val) -> Val {
        let x = self.term(a, w);
        let y = self.term(b, w);
        let p = &mut self.pool;
        let mant = if w == 32 { 23 } else { 52 };
        let inf = p.con(((1u128 << (w - 1 - mant)) - 1) << mant, w - 1);
        let (ax, ay) = (p.extract(x, 0, w - 1), p.extract(y, 0, w - 1));
        let (nx, ny) = (p.ult(inf, ax), p.ult(inf, ay));
        let un = p.bin(Bop::Or, nx, ny);
        let z = p.con(0, w - 1);
        let (zx, zy) = (p.eq(ax, z), p.eq(ay, z));
        let bz = p.bin(Bop::And, zx, zy);
        let same = p.eq(x, y);
        let eq = p.bin(Bop::Or, same, bz);
        let (sx, sy) = (p.extract(x, w - 1, 1), p.extract(y, w - 1, 1));
        let less = |p: &mut Pool, ax: T, sx: T, ay: T, sy: T, eq: T| {
            let mag = p.ult(ax, ay);
            let rmag = p.ult(ay, ax);
            let bysign = p.ite(sx, rmag, mag);
            let ds = p.bin(Bop::Xor, sx, sy);
            let l = p.ite(ds, sx, bysign);
            let ne = p.not(eq);
            p.bin(Bop::And, l, ne)
        };
        let lt = less(p, ax, sx, ay, sy, eq);
        let gt = less(p, ay, sy, ax, sx, eq);
        let base = match &pred[pred.len().saturating_sub(2)..] {
            "eq" => eq,
            "ne" => p.not(eq),
            "gt" => gt,
            "ge" => p.bin(Bop::Or, gt, eq),
            "lt" => lt,
            "le" => p.bin(Bop::Or, lt, eq),
            _ => p.fls(),
        };
        let r = match pred {
            "ord" => p.not(un),
            "uno" => un,
            "true" => p.tru(),
            "false" => p.fls(),
            s if s.starts_with('u') => p.bin(Bop::Or, un, base),
            _ => {
                let o = p.not(un);
                p.bin(Bop::And, o, base)
            }
        };
        self.mkv(r)
    }

    /// f32 to f64
    fn fpext(&mut self, t: T) -> T {
        let p = &mut self.pool;
        let s = p.extract(t, 31, 1);
        let e = p.extract(t, 23, 8);
        let m = p.extract(t, 0, 23);
        let e11 = p.zext(e, 11);
        let bias = p.con(896, 11);
        let en = p.bin(Bop::Add, e11, bias);
        let z29 = p.con(0, 29);
        let m52 = p.concat(m, z29);
        let normal = p.concat(en, m52);
        // infinite, or a quiet NaN
        let z23 = p.con(0, 23);
        let mz = p.eq(m, z23);
        let zero52 = p.con(0, 52);
        let quiet = p.con(1 << 51, 52);
        let q52 = p.bin(Bop::Or, m52, quiet);
        let sm = p.ite(mz, zero52, q52);
        let emax = p.con(2047, 11);
        let special = p.concat(emax, sm);
        // subnormal
        let mut sub = p.con(0, 63);
        for k in 0..23u32 {
            let bit = p.extract(m, k, 1);
            let ek = p.con(k as u128 + 874, 11);
            let f = if k == 0 {
                p.con(0, 52)
            } else {
                let low = p.extract(m, 0, k);
                let z = p.con(0, 52 - k);
                p.concat(low, z)
            };
            let v = p.concat(ek, f);
            sub = p.ite(bit, v, sub);
        }
        let (c0, c255) = (p.con(0, 8), p.con(255, 8));
        let (is0, is255) = (p.eq(e, c0), p.eq(e, c255));
        let r = p.ite(is255, special, normal);
        let r = p.ite(is0, sub, r);
        p.concat(s, r)
    }

    fn cast(&mut self, k: CastK, from: &Ty, to: &Ty, v: Val) -> R<Val> {
        if from.is_agg() || to.is_agg() {
            if k == CastK::Bitcast {
                let n: u32 = if from.is_agg() { from.count() as u32 * from.elem(0).bits() } else { from.bits() };
                let t = self.term(&v, n);
                if to.is_agg() {
                    let ew = to.elem(0).bits();
                    let mut r = vec![];
                    for i in 0..to.count() as u32 {
                        let e = self.pool.extract(t, i * ew, ew);
                        r.push(self.mkv(e));
                    }
                    return Ok(Val::Agg(r.into()));
                }
                return Ok(self.mkv(t));
            }
            if let Val::Agg(a) = v {
                let (fe, te) = (from.elem(0), to.elem(0));
                let mut r = vec![];
                for x in a.iter() {
                    r.push(self.cast(k, &fe, &te, x.clone())?);
                }
                return Ok(Val::Agg(r.into()));
            }
            return Ok(v);
        }
        let (w1, w2) = (from.bits(), to.bits());
        match k {
            CastK::Zext | CastK::Sext | CastK::Trunc | CastK::PtrInt | CastK::Bitcast => match v {
                Val::C(c) => {
                    let r = match k {
                        CastK::Sext => (sext128(c, w1) as u128) & mask(w2),
                        _ => c & mask(w2),
                    };
                    Ok(Val::C(r))
                }
                Val::T(t) => {
                    let r = if w2 == w1 {
                        t
                    } else if w2 < w1 {
                        self.pool.extract(t, 0, w2)
                    } else if k == CastK::Sext {
                        self.pool.sext(t, w2)
                    } else {
                        self.pool.zext(t, w2)
                    };
                    Ok(self.mkv(r))
                }
                x => Ok(x),
            },
            CastK::FpExt if w1 == 32 && w2 == 64 && matches!(v, Val::T(_)) => {
                let t = self.term(&v, w1);
                let r = self.fpext(t);
                Ok(self.mkv(r))
            }
            _ => {
                let c = self.concretize(&v, w1)?;
                let f = |c: u128, w: u32| if w == 32 { f32::from_bits(c as u32) as f64 } else { f64::from_bits(c as u64) };
                let g = |x: f64, w: u32| if w == 32 { (x as f32).to_bits() as u128 } else { x.to_bits() as u128 };
                Ok(Val::C(match k {
                    CastK::FpToUi => (f(c, w1) as u128) & mask(w2),
                    CastK::FpToSi => (f(c, w1) as i128 as u128) & mask(w2),
                    CastK::UiToFp => {
                        if w2 == 32 {
                            (c as f32).to_bits() as u128
                        } else {
                            (c as f64).to_bits() as u128
                        }
                    }
                    CastK::SiToFp => {
                        let s = sext128(c, w1);
                        if w2 == 32 {
                            (s as f32).to_bits() as u128
                        } else {
                            (s as f64).to_bits() as u128
                        }
                    }
                    _ => g(f(c, w1), w2),
                }))
            }
        }
    }

    // ---------------------------------------------------------------- main loop

    fn goto(&mut self, b: u32) -> R<()> {
        let (fi, cur) = {
            let f = self.frames.last().unwrap();
            (f.f, f.blk)
        };
        {
            let f = self.frames.last_mut().unwrap();
            f.prev = cur;
            f.blk = b;
            f.pc = 0;
        }
        self.blocks_hit.entry(fi).or_default().insert(b);
        // phis
        let prog = self.m.prog.clone();
        let insts = &prog.funcs[fi].blocks[b as usize].insts;
        let mut newv: Vec<(u32, Val)> = vec![];
        let mut n = 0;
        for i in insts.iter() {
            if let Inst::Phi(d, _, v) = i {
                let o = v.iter().find(|(_, l)| *l == cur);
                match o {
                    Some((o, _)) => newv.push((*d, self.opd(o))),
                    None => return Err(End::Stuck("phi without a matching predecessor".into())),
                }
                n += 1;
            } else {
                break;
            }
        }
        for (d, v) in newv {
            self.set(d, v);
        }
        self.frames.last_mut().unwrap().pc = n;
        Ok(())
    }

    fn run(&mut self) -> R<()> {
        let prog = self.m.prog.clone();
        let mut count: u64 = 0;
        loop {
            count += 1;
            self.stats.insts += 1;
            if count > self.m.opts.max_insts {
                return Err(End::Stuck(format!("instruction limit reached in {:?}", self.stack().iter().take(4).collect::<Vec<_>>())));
            }
            let (fi, blk, pc) = {
                let f = self.frames.last_mut().unwrap();
                let r = (f.f, f.blk, f.pc);
                f.pc += 1;
                r
            };
            let inst = &prog.funcs[fi].blocks[blk as usize].insts[pc];
            if self.m.opts.trace {
                eprintln!("{} b{} {:?}", demangle(&prog.funcs[fi].name), blk, inst);
            }
            match inst {
                Inst::Bin(d, k, ty, a, b) => {
                    let a = self.opd(a);
                    let b = self.opd(b);
                    let r = if ty.is_agg() {
                        let w = ty.elem(0).bits();
                        let n = ty.count();
                        let (a, b) = (agg(&a, n), agg(&b, n));
                        let mut v = vec![];
                        for i in 0..n {
                            v.push(self.binop(*k, w, &a[i], &b[i])?);
                        }
                        Val::Agg(v.into())
                    } else {
                        self.binop(*k, ty.bits(), &a, &b)?
                    };
                    self.set(*d, r);
                }
                Inst::ICmp(d, p, ty, a, b) => {
                    let a = self.opd(a);
                    let b = self.opd(b);
                    let r = if ty.is_agg() {
                        let w = ty.elem(0).bits();
                        let n = ty.count();
                        let (a, b) = (agg(&a, n), agg(&b, n));
                        let mut v = vec![];
                        for i in 0..n {
                            v.push(self.icmp(*p, w, &a[i], &b[i]));
                        }
                        Val::Agg(v.into())
                    } else {
                        self.icmp(*p, ty.bits(), &a, &b)
                    };
                    self.set(*d, r);
                }
                Inst::FCmp(d, p, ty, a, b) => {
                    let w = ty.bits();
                    let a = self.opd(a);
                    let b = self.opd(b);
                    if matches!(a, Val::T(_)) || matches!(b, Val::T(_)) {
                        let r = self.fcmp(p, w, &a, &b);
                        self.set(*d, r);
                    } else {
                    let x = self.concretize(&a, w)?;
                    let y = self.concretize(&b, w)?;
                    let f = |c: u128| if w == 32 { f32::from_bits(c as u32) as f64 } else { f64::from_bits(c as u64) };
                    let (x, y) = (f(x), f(y));
                    let un = x.is_nan() || y.is_nan();
                    let base = match &p[p.len().saturating_sub(2)..] {
                        "eq" => x == y,
                        "ne" => x != y && !un,
                        "gt" => x > y,
                        "ge" => x >= y,
                        "lt" => x < y,
                        "le" => x <= y,
                        _ => false,
                    };
                    let r = match p.as_str() {
                        "ord" => !un,
                        "uno" => un,
                        "true" => true,
                        "false" => false,
                        s if s.starts_with('u') => un || base,
                        _ => base,
                    };
                    self.set(*d, Val::C(r as u128));
                    }
                }
                Inst::FNeg(d, ty, a) => {
                    let w = ty.bits();
                    let a = self.opd(a);
                    let m = Val::C(1u128 << (w - 1));
                    let r = self.binop(BinK::Xor, w, &a, &m)?;
                    self.set(*d, r);
                }
                Inst::Select(d, c, ty, a, b) => {
                    let c = self.opd(c);
                    let r = match c {
                        Val::C(1) => self.opd(a),
                        Val::C(_) | Val::Undef => self.opd(b),
                        Val::T(ct) => {
                            let x = self.opd(a);
                            let y = self.opd(b);
                            if ty.is_agg() || matches!(x, Val::Undef) || matches!(y, Val::Undef) {
                                if self.branch(ct)? {
                                    x
                                } else {
                                    y
                                }
                            } else {
                                let w = ty.bits();
                                let x = self.term(&x, w);
                                let y = self.term(&y, w);
                                let r = self.pool.ite(ct, x, y);
                                self.mkv(r)
                            }
                        }
                        _ => return Err(End::Stuck("vector select".into())),
                    };
                    self.set(*d, r);
                }
                Inst::Cast(d, k, t1, t2, v) => {
                    let v = self.opd(v);
                    let r = self.cast(*k, t1, t2, v)?;
                    self.set(*d, r);
                }
                Inst::Alloca(d, size, _) => {
                    let a = self.alloc(*size, false, None);
                    let id = self.objs.len() as u32 - 1;
                    self.frames.last_mut().unwrap().allocas.push(id);
                    self.set(*d, Val::C(a as u128));
                }
                Inst::Load(d, ty, p) => {
                    let p = self.opd(p);
                    let v = match self.table_load(ty, &p)? {
                        Some(v) => v,
                        None => {
                            let a = self.addr(&p)?;
                            self.load(ty, a)?
                        }
                    };
                    self.set(*d, v);
                }
                Inst::Store(ty, v, p) => {
                    let p = self.opd(p);
                    let a = self.addr(&p)?;
                    let v = self.opd(v);
                    self.store(ty, &v, a)?;
                }
                Inst::Gep(d, base, off, vars) => {
                    let b = self.opd(base);
                    let mut r = match b {
                        Val::C(c) => Val::C((c as u64).wrapping_add(*off as u64) as u128),
                        _ => {
                            let o = Val::C(*off as u64 as u128);
                            self.binop(BinK::Add, 64, &b, &o)?
                        }
                    };
                    for (v, w, sc) in vars {
                        let x = self.opd(v);
                        let x64 = match x {
                            Val::C(c) => Val::C((sext128(c, *w) as u128) & mask(64)),
                            Val::T(t) => {
                                let e = if *w < 64 {
                                    self.pool.sext(t, 64)
                                } else {
                                    self.pool.extract(t, 0, 64)
                                };
                                self.mkv(e)
                            }
                            x => x,
                        };
                        let k = Val::C(*sc as u64 as u128);
                        let p = self.binop(BinK::Mul, 64, &x64, &k)?;
                        r = self.binop(BinK::Add, 64, &r, &p)?;
                    }
                    self.set(*d, r);
                }
                Inst::ExtractValue(d, _, v, ix) => {
                    let mut v = self.opd(v);
                    for i in ix {
                        v = match &v {
                            Val::Agg(a) => a[*i as usize].clone(),
                            _ => Val::Undef,
                        };
                    }
                    self.set(*d, v);
                }
                Inst::InsertValue(d, ty, v, _, x, ix) => {
                    let v = self.opd(v);
                    let x = self.opd(x);
                    let r = insert_val(ty, &v, &x, ix);
                    self.set(*d, r);
                }
                Inst::ExtractElem(d, ty, v, i) => {
                    let v = self.opd(v);
                    let i = self.opd(i);
                    let k = self.concretize(&i, 64)? as usize;
                    let a = agg(&v, ty.count());
                    self.set(*d, a[k].clone());
                }
                Inst::InsertElem(d, ty, v, x, i) => {
                    let v = self.opd(v);
                    let i = self.opd(i);
                    let x = self.opd(x);
                    let k = self.concretize(&i, 64)? as usize;
                    let mut a = agg(&v, ty.count()).to_vec();
                    a[k] = x;
                    self.set(*d, Val::Agg(a.into()));
                }
                Inst::Shuffle(d, ty, a, b, ix) => {
                    let n = ty.count();
                    let a = agg(&self.opd(a), n);
                    let b = agg(&self.opd(b), n);
                    let r: Vec<Val> = ix
                        .iter()
                        .map(|i| {
                            let i = *i as usize;
                            if i < n {
                                a[i].clone()
                            } else if i < 2 * n {
                                b[i - n].clone()
                            } else {
                                Val::Undef
                            }
                        })
                        .collect();
                    self.set(*d, Val::Agg(r.into()));
                }
                Inst::AtomicRmw(d, k, ty, p, v) => {
                    let p = self.opd(p);
                    let a = self.addr(&p)?;
                    let old = self.load(ty, a)?;
                    let v = self.opd(v);
                    let w = ty.bits();
                    let n = match k.as_str() {
                        "xchg" => v,
                        "add" => self.binop(BinK::Add, w, &old, &v)?,
                        "sub" => self.binop(BinK::Sub, w, &old, &v)?,
                        "and" => self.binop(BinK::And, w, &old, &v)?,
                        "or" => self.binop(BinK::Or, w, &old, &v)?,
                        "xor" => self.binop(BinK::Xor, w, &old, &v)?,
                        _ => return Err(End::Stuck(format!("atomicrmw {}", k))),
                    };
                    self.store(ty, &n, a)?;
                    self.set(*d, old);
                }
                Inst::CmpXchg(d, ty, p, c, n) => {
                    let p = self.opd(p);
                    let a = self.addr(&p)?;
                    let old = self.load(ty, a)?;
                    let c = self.opd(c);
                    let e = self.icmp(0, ty.bits(), &old, &c);
                    let hit = match e {
                        Val::C(x) => x == 1,
                        Val::T(t) => self.branch(t)?,
                        _ => false,
                    };
                    if hit {
                        let n = self.opd(n);
                        self.store(ty, &n, a)?;
                    }
                    self.set(*d, Val::Agg(vec![old, Val::C(hit as u128)].into()));
                }
                Inst::Freeze(d, v) => {
                    let v = self.opd(v);
                    self.set(*d, if let Val::Undef = v { Val::C(0) } else { v });
                }
                Inst::Fence => {}
                Inst::Phi(..) => return Err(End::Stuck("stray phi".into())),
                Inst::Br(b) => self.goto(*b)?,
                Inst::CondBr(c, a, b) => {
                    let c = self.opd(c);
                    let t = match c {
                        Val::C(x) => x == 1,
                        Val::T(t) => self.branch(t)?,
                        _ => false,
                    };
                    self.goto(if t { *a } else { *b })?;
                }
                Inst::Switch(ty, v, def, cases) => {
                    let v = self.opd(v);
                    let mut target = *def;
                    match v {
                        Val::C(x) => {
                            for (k, l) in cases {
                                if *k == x {
                                    target = *l;
                                    break;
                                }
                            }
                        }
                        Val::T(t) => {
                            let w = ty.bits();
                            for (k, l) in cases {
                                let c = self.pool.con(*k, w);
                                let e = self.pool.eq(t, c);
                                if self.branch(e)? {
                                    target = *l;
                                    break;
                                }
                            }
                        }
                        _ => {}
                    }
                    self.goto(target)?;
                }
                Inst::Ret(v) => {
                    let v = v.as_ref().map(|v| self.opd(v));
                    let f = self.frames.pop().unwrap();
                    for a in &f.allocas {
                        self.kill(*a);
                    }
                    if self.frames.is_empty() {
                        return Ok(());
                    }
                    if let (Some(d), Some(v)) = (f.dst, v) {
                        self.set(d, v);
                    }
                    if let Some(b) = f.cont {
                        self.goto(b)?;
                    }
                }
                Inst::Unreachable => return Err(End::Fail("unreachable code reached (undefined behaviour)".into())),
                Inst::Unsupported(s) => return Err(End::Stuck(format!("unsupported instruction {}", s))),
                Inst::Call(d, rt, callee, args, normal) => {
                    let fidx = match callee {
                        Callee::Func(f) => *f,
                        Callee::Ext(n) => {
                            if n.starts_with("asm") {
                                // empty inline assembly is used as an optimisation barrier
                                if &**n == "asm  " || n.trim() == "asm" || n.starts_with("asm  ~") || n.starts_with("asm  r,~") {
                                    continue;
                                }
                                return Err(End::Stuck(format!("inline assembly {}", n)));
                            }
                            return Err(End::Stuck(format!("call of unknown symbol {}", n)));
                        }
                        Callee::Indirect(o) => {
                            let v = self.opd(o);
                            let a = self.addr(&v)?;
                            let i = (a.wrapping_sub(FUNC_BASE)) / 16;
                            if a < FUNC_BASE || i as usize >= prog.funcs.len() {
                                return Err(End::Fail("call through an invalid function pointer".into()));
                            }
                            i as usize
                        }
                    };
                    let h = self.m.handlers[fidx];
                    let av: Vec<Val> = args.iter().map(|(_, o)| self.opd(o)).collect();
                    if h == H::Interp {
                        if self.frames.len() > 2000 {
                            return Err(End::Fail("stack overflow (2000 frames)".into()));
                        }
                        self.push_frame(fidx, av, *d, *normal);
                    } else {
                        let r = self.intrinsic(h, fidx, rt, args, av)?;
                        if let (Some(d), Some(r)) = (d, r) {
                            self.set(*d, r);
                        }
                        if let Some(b) = normal {
                            self.goto(*b)?;
                        }
                    }
                }
            }
        }
    }

    fn panic_msg(&mut self, fidx: usize, args: &[(TyR, Opd)], av: &[Val]) -> String {
        let name = demangle(&self.m.prog.funcs[fidx].name);
        let mut loc = String::new();
        let mut text = String::new();
        if let Some(Val::C(a)) = av.last() {
            if *args.last().unwrap().0 == Ty::Ptr {
                if let (Ok(Val::C(f)), Ok(Val::C(n)), Ok(Val::C(line))) =
                    (self.load_bits(*a as u64, 8), self.load_bits(*a as u64 + 8, 8), self.load_bits(*a as u64 + 16, 4))
                {
                    if n < 512 {
                        let mut s = vec![];
                        for k in 0..n as u64 {
                            if let Ok(Val::C(c)) = self.load_bits(f as u64 + k, 1) {
                                s.push(c as u8);
                            }
                        }
                        loc = format!(" at {}:{}", String::from_utf8_lossy(&s), line);
                    }
                }
            }
        }
        if av.len() >= 2 {
            if let (Val::C(p), Val::C(n)) = (&av[0], &av[1]) {
                if *n < 400 && *args[0].0 == Ty::Ptr && *args[1].0 == Ty::Int(64) {
                    let mut s = vec![];
                    for k in 0..*n as u64 {
                        match self.load_bits(*p as u64 + k, 1) {
                            Ok(Val::C(c)) => s.push(c as u8),
                            _ => break,
                        }
                    }
                    text = format!(" \"{}\"", String::from_utf8_lossy(&s));
                }
            }
        }
        format!("panic: {}{}{}", name, text, loc)
    }

    fn intrinsic(&mut self, h: H, fidx: usize, rt: &TyR, args: &[(TyR, Opd)], av: Vec<Val>) -> R<Option<Val>> {
        let wr = match &**rt {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            _ => 0,
        };
        if let Ty::Vector(n, e) = &**rt {
            // elementwise
            let ew = e.bits();
            let mut out = vec![];
            let sub_rt: TyR = e.clone();
            for i in 0..*n as usize {
                let a2: Vec<Val> = av
                    .iter()
                    .map(|v| match v {
                        Val::Agg(a) => a[i].clone(),
                        x => x.clone(),
                    })
                    .collect();
                let args2: Vec<(TyR, Opd)> = args
                    .iter()
                    .map(|(t, o)| (if t.is_agg() { t.elem(0) } else { t.clone() }, o.clone()))
                    .collect();
                let r = self.intrinsic(h, fidx, &sub_rt, &args2, a2)?;
                out.push(r.unwrap_or(Val::Undef));
            }
            let _ = ew;
            return Ok(Some(Val::Agg(out.into())));
        }
        let r = match h {
            H::Interp => unreachable!(),
            H::Nop => match &**rt {
                Ty::Void => None,
                _ => Some(Val::C(0)),
            },
            H::RetArg0 => Some(av[0].clone()),
            H::Panic => {
                let m = self.panic_msg(fidx, args, &av);
                return Err(End::Fail(m));
            }
            H::Abort => return Err(End::Fail("abort".into())),
            H::Unknown => return Err(End::Stuck(format!("call of unmodelled function {}", self.m.prog.funcs[fidx].name))),
            H::Malloc | H::RustAlloc | H::RustAllocZ => {
                let n = self.concretize(&av[0], 64)? as u64;
                if n > self.m.opts.malloc_limit {
                    Some(Val::C(0))
                } else {
                    let a = self.alloc(n, true, if h == H::RustAllocZ { Some(0) } else { None });
                    Some(Val::C(a as u128))
                }
            }
            H::Calloc => {
                let n = self.concretize(&av[0], 64)? as u64;
                let m = self.concretize(&av[1], 64)? as u64;
                let a = self.alloc(n * m, true, Some(0));
                Some(Val::C(a as u128))
            }
            H::PosixMemalign => {
                let p = self.addr(&av[0])?;
                let n = self.concretize(&av[2], 64)? as u64;
                let a = self.alloc(n, true, None);
                self.store(&Ty::Ptr, &Val::C(a as u128), p)?;
                Some(Val::C(0))
            }
            H::Free | H::RustDealloc => {
                let p = self.addr(&av[0])?;
                self.do_free(p)?;
                None
            }
            H::Realloc | H::RustRealloc => {
                let p = self.addr(&av[0])?;
                let n = if h == H::Realloc { self.concretize(&av[1], 64)? } else { self.concretize(&av[3], 64)? } as u64;
                if n > self.m.opts.malloc_limit {
                    Some(Val::C(0))
                } else {
                    let (id, off) = self.resolve(p, 1, true)?;
                    if off != 0 || !self.objs[id].as_ref().unwrap().heap {
                        return Err(End::Fail("realloc of an invalid pointer".into()));
                    }
                    let old = self.objs[id].as_ref().unwrap().data.len() as u64;
                    let a = self.alloc(n, true, None);
                    self.memcpy(a, p, old.min(n))?;
                    self.kill(id as u32);
                    Some(Val::C(a as u128))
                }
            }
            H::Memcpy => {
                let d = self.addr(&av[0])?;
                let s = self.addr(&av[1])?;
                let n = self.concretize(&av[2], 64)? as u64;
                self.memcpy(d, s, n)?;
                if **rt == Ty::Void {
                    None
                } else {
                    Some(av[0].clone())
                }
            }
            H::Memset => {
                let d = self.addr(&av[0])?;
                let n = self.concretize(&av[2], 64)? as u64;
                let v = match &av[1] {
                    Val::C(c) => Val::C(c & 0xff),
                    Val::T(t) => {
                        let e = self.pool.extract(*t, 0, 8);
                        self.mkv(e)
                    }
                    x => x.clone(),
                };
                if n > 0 {
                    self.resolve(d, n, true)?;
                }
                let t8 = Ty::Int(8);
                for k in 0..n {
                    self.store(&t8, &v, d + k)?;
                }
                if **rt == Ty::Void {
                    None
                } else {
                    Some(av[0].clone())
                }
            }
            H::Memcmp => {
                let a = self.addr(&av[0])?;
                let b = self.addr(&av[1])?;
                let n = self.concretize(&av[2], 64)? as u64;
                let mut r = self.pool.con(0, wr);
                for k in (0..n).rev() {
                    let x = self.load_bits(a + k, 1)?;
                    let y = self.load_bits(b + k, 1)?;
                    let x = self.term(&x, 8);
                    let y = self.term(&y, 8);
                    let e = self.pool.eq(x, y);
                    let l = self.pool.ult(x, y);
                    let m1 = self.pool.con(u128::MAX, wr);
                    let p1 = self.pool.con(1, wr);
                    let d = self.pool.ite(l, m1, p1);
                    r = self.pool.ite(e, r, d);
                }
                Some(self.mkv(r))
            }
            H::Strlen => {
                let a = self.addr(&av[0])?;
                let mut n = 0;
                loop {
                    let c = self.load_bits(a + n, 1)?;
                    if self.concretize(&c, 8)? == 0 {
                        break;
                    }
                    n += 1;
                }
                Some(Val::C(n as u128))
            }
            H::UMax | H::UMin | H::SMax | H::SMin => {
                let c = match h {
                    H::UMax => self.icmp(2, wr, &av[0], &av[1]),
                    H::UMin => self.icmp(4, wr, &av[0], &av[1]),
                    H::SMax => self.icmp(6, wr, &av[0], &av[1]),
                    _ => self.icmp(8, wr, &av[0], &av[1]),
                };
                Some(self.sel(&c, wr, &av[0], &av[1]))
            }
            H::UAddSat => {
                let s = self.binop(BinK::Add, wr, &av[0], &av[1])?;
                let o = self.icmp(4, wr, &s, &av[0]);
                Some(self.sel(&o, wr, &Val::C(mask(wr)), &s))
            }
            H::SSat(sub) => {
                let w = args[0].0.bits();
                let x = self.term(&av[0], w);
                let y = self.term(&av[1], w);
                let x2 = self.pool.sext(x, w + 1);
                let y2 = self.pool.sext(y, w + 1);
                let f = self.pool.bin(if sub { Bop::Sub } else { Bop::Add }, x2, y2);
                let low = self.pool.extract(f, 0, w);
                let back = self.pool.sext(low, w + 1);
                let over = self.pool.ne(back, f);
                let neg = self.pool.extract(f, w, 1);
                let lo = self.pool.con(1u128 << (w - 1), w);
                let hi = self.pool.con(mask(w - 1), w);
                let lim = self.pool.ite(neg, lo, hi);
                let r = self.pool.ite(over, lim, low);
                Some(self.mkv(r))
            }
            H::USubSat => {
                let s = self.binop(BinK::Sub, wr, &av[0], &av[1])?;
                let o = self.icmp(4, wr, &av[0], &av[1]);
                Some(self.sel(&o, wr, &Val::C(0), &s))
            }
            H::AddOvf(sg) | H::SubOvf(sg) | H::MulOvf(sg) => {
                let w = args[0].0.bits();
                let ww = if matches!(h, H::MulOvf(_)) { 2 * w } else { w + 1 };
                if ww > 128 || matches!((&av[0], &av[1]), (Val::C(_), Val::C(_))) == false {
                    // symbolic (or very wide) operands
                    let x = self.term(&av[0], w);
                    let y = self.term(&av[1], w);
                    let r0 = match h {
                        H::AddOvf(_) => self.pool.bin(Bop::Add, x, y),
                        H::SubOvf(_) => self.pool.bin(Bop::Sub, x, y),
                        _ => self.pool.bin(Bop::Mul, x, y),
                    };
                    let o = match (h, sg) {
                        (H::AddOvf(_), false) => self.pool.ult(r0, x),
                        (H::SubOvf(_), false) => self.pool.ult(x, y),
                        _ => {
                            let (x2, y2) = if sg {
                                (self.pool.sext(x, ww), self.pool.sext(y, ww))
                            } else {
                                (self.pool.zext(x, ww), self.pool.zext(y, ww))
                            };
                            let full = match h {
                                H::AddOvf(_) => self.pool.bin(Bop::Add, x2, y2),
                                H::SubOvf(_) => self.pool.bin(Bop::Sub, x2, y2),
                                _ => self.pool.bin(Bop::Mul, x2, y2),
                            };
                            let back = self.pool.extract(full, 0, w);
                            let back = if sg { self.pool.sext(back, ww) } else { self.pool.zext(back, ww) };
                            self.pool.ne(back, full)
                        }
                    };
                    let r = self.mkv(r0);
                    let o = self.mkv(o);
                    Some(Val::Agg(vec![r, o].into()))
                } else if let (Val::C(x), Val::C(y)) = (&av[0], &av[1]) {
                    let (a, b) = if sg { (sext128(*x, w), sext128(*y, w)) } else { (*x as i128, *y as i128) };
                    let full = match h {
                        H::AddOvf(_) => a.wrapping_add(b),
                        H::SubOvf(_) => a.wrapping_sub(b),
                        _ => a.wrapping_mul(b),
                    };
                    let low = (full as u128) & mask(w);
                    let back = if sg { sext128(low, w) } else { low as i128 };
                    Some(Val::Agg(vec![Val::C(low), Val::C((back != full) as u128)].into()))
                } else {
                    unreachable!()
                }
            }
            H::Fshl | H::Fshr => {
                let w = wr;
                let n = match &av[2] {
                    Val::C(c) => Val::C(*c % w as u128),
                    Val::T(t) if self.policy & 2 != 0 => {
                        let c = self.concretize_t(*t)?;
                        Val::C(c % w as u128)
                    }
                    Val::T(t) => {
                        let k = self.pool.con(w as u128, w);
                        let r = self.pool.bin(Bop::URem, *t, k);
                        self.mkv(r)
                    }
                    _ => Val::C(0),
                };
                let hi = self.term(&av[0], w);
                let lo = self.term(&av[1], w);
                let cat = self.pool.concat(hi, lo);
                let n = self.term(&n, w);
                let n2 = self.pool.zext(n, 2 * w);
                let r = if h == H::Fshl {
                    let s = self.pool.bin(Bop::Shl, cat, n2);
                    self.pool.extract(s, w, w)
                } else {
                    let s = self.pool.bin(Bop::LShr, cat, n2);
                    self.pool.extract(s, 0, w)
                };
                Some(self.mkv(r))
            }
            H::Ctpop => {
                let t = self.term(&av[0], wr);
                let r = self.pool.popcnt(t);
                Some(self.mkv(r))
            }
            H::Cttz | H::Ctlz => {
                let r = match &av[0] {
                    Val::C(c) => {
                        let k = if h == H::Cttz {
                            if *c == 0 {
                                wr
                            } else {
                                c.trailing_zeros()
                            }
                        } else {
                            wr - (128 - c.leading_zeros())
                        };
                        Val::C(k as u128)
                    }
                    v => {
                        let t = self.term(v, wr);
                        let r = self.pool.clz(t, h == H::Cttz);
                        match self.mkv(r) {
                            Val::T(t) if self.policy & 1 != 0 => Val::C(self.concretize_t(t)?),
                            x => x,
                        }
                    }
                };
                Some(r)
            }
            H::Abs => {
                let z = Val::C(0);
                let n = self.binop(BinK::Sub, wr, &z, &av[0])?;
                let c = self.icmp(8, wr, &av[0], &z);
                Some(self.sel(&c, wr, &n, &av[0]))
            }
            H::Bswap => {
                let t = self.term(&av[0], wr);
                let mut r = self.pool.extract(t, 0, 8);
                for k in 1..wr / 8 {
                    let b = self.pool.extract(t, 8 * k, 8);
                    r = self.pool.concat(r, b);
                }
                Some(self.mkv(r))
            }
            H::Bitrev => {
                let t = self.term(&av[0], wr);
                let mut r = self.pool.extract(t, 0, 1);
                for k in 1..wr {
                    let b = self.pool.extract(t, k, 1);
                    r = self.pool.concat(r, b);
                }
                Some(self.mkv(r))
            }
            H::UCmp | H::SCmp => {
                let w = args[0].0.bits();
                let (lt, gt) = if h == H::UCmp {
                    (self.icmp(4, w, &av[0], &av[1]), self.icmp(2, w, &av[0], &av[1]))
                } else {
                    (self.icmp(8, w, &av[0], &av[1]), self.icmp(6, w, &av[0], &av[1]))
                };
                let m1 = Val::C(mask(wr));
                let x = self.sel(&gt, wr, &Val::C(1), &Val::C(0));
                Some(self.sel(&lt, wr, &m1, &x))
            }
            H::AddCarry | H::SubBorrow => {
                let w = args[1].0.bits();
                let c = self.term(&av[0], 8);
                let z = self.pool.con(0, 8);
                let cb = self.pool.ne(c, z);
                let c = self.pool.zext(cb, w + 1);
                let a = self.term(&av[1], w);
                let b = self.term(&av[2], w);
                let a = self.pool.zext(a, w + 1);
                let b = self.pool.zext(b, w + 1);
                let op = if h == H::AddCarry { Bop::Add } else { Bop::Sub };
                let s = self.pool.bin(op, a, b);
                let s = self.pool.bin(op, s, c);
                let o = self.pool.extract(s, w, 1);
                let o = self.pool.zext(o, 8);
                let l = self.pool.extract(s, 0, w);
                let o = self.mkv(o);
                let l = self.mkv(l);
                Some(Val::Agg(vec![o, l].into()))
            }
            H::IsConst => Some(Val::C(0)),
            H::UdivTi => Some(self.binop(BinK::UDiv, 128, &av[0], &av[1])?),
            H::UmodTi => Some(self.binop(BinK::URem, 128, &av[0], &av[1])?),
            H::FloatFn(k) => {
                let w = args[0].0.bits();
                if k == 5 {
                    let m = Val::C(mask(w - 1));
                    return Ok(Some(self.binop(BinK::And, w, &av[0], &m)?));
                }
                let c = self.concretize(&av[0], w)?;
                let x = if w == 32 { f32::from_bits(c as u32) as f64 } else { f64::from_bits(c as u64) };
                let y = match k {
                    1 => {
                        let m = mask(wr);
                        let v = if x.is_nan() || x <= 0.0 { 0 } else { (x as u128).min(m) };
                        return Ok(Some(Val::C(v)));
                    }
                    2 => {
                        let lo = -(1i128 << (wr - 1));
                        let hi = (1i128 << (wr - 1)) - 1;
                        let v = if x.is_nan() { 0 } else { (x as i128).clamp(lo, hi) };
                        return Ok(Some(Val::C((v as u128) & mask(wr))));
                    }
                    3 => x.ceil(),
                    4 => x.floor(),
                    5 => x.abs(),
                    6 => x.log2(),
                    7 => x.sqrt(),
                    8 => x.trunc(),
                    _ => x.round(),
                };
                Some(Val::C(if w == 32 { (y as f32).to_bits() as u128 } else { y.to_bits() as u128 }))
            }
            H::Vx(k) => return self.vx(k, wr, args, av),
        };
        Ok(r)
    }

    fn sel(&mut self, c: &Val, w: u32, a: &Val, b: &Val) -> Val {
        match c {
            Val::C(1) => a.clone(),
            Val::C(_) => b.clone(),
            Val::T(t) => {
                let x = self.term(a, w);
                let y = self.term(b, w);
                let r = self.pool.ite(*t, x, y);
                self.mkv(r)
            }
            _ => b.clone(),
        }
    }

    fn do_free(&mut self, p: u64) -> R<()> {
        if p == 0 {
            return Ok(());
        }
        let id = (p >> 32).wrapping_sub(1) as usize;
        if p >> 32 == 0 || id >= self.objs.len() || self.objs[id].is_none() {
            return Err(End::Fail("free of an invalid pointer".into()));
        }
        let o = self.objs[id].as_ref().unwrap();
        if !o.heap || !o.alive || (p & 0xffff_ffff) != BIAS {
            return Err(End::Fail("double free or free of an invalid pointer".into()));
        }
        self.kill(id as u32);
        Ok(())
    }

    // ---------------------------------------------------------------- harness interface

    fn fit(&mut self, t: T) -> T {
        // shrink constants to their minimal signed width; otherwise leave
        let w = self.pool.w(t);
        if let Some(c) = self.pool.as_const(t).cloned() {
            let s = c.bit(w - 1);
            let mut k = w;
            while k > 1 && c.bit(k - 2) == s {
                k -= 1;
            }
            if k < w {
                return self.pool.extract(t, 0, k);
            }
        }
        if let Node::ZExt(x) = self.pool.node(t).clone() {
            let wx = self.pool.w(x);
            if wx + 1 < w {
                return self.pool.zext(x, wx + 1);
            }
        }
        if let Node::SExt(x) = self.pool.node(t).clone() {
            return x;
        }
        t
    }
    fn h(&mut self, v: &Val) -> R<T> {
        match v {
            Val::C(i) => self.hs.get(*i as usize).copied().ok_or(End::Stuck("bad handle".into())),
            _ => Err(End::Stuck("symbolic handle".into())),
        }
    }
    fn newh(&mut self, t: T) -> R<Option<Val>> {
        let t = self.fit(t);
        self.hs.push(t);
        Ok(Some(Val::C(self.hs.len() as u128 - 1)))
    }
    fn cond(&mut self, v: &Val, w: u32) -> T {
        let t = self.term(v, w);
        if w == 1 {
            t
        } else {
            let z = self.pool.con(0, w);
            self.pool.ne(t, z)
        }
    }
    fn two(&mut self, a: T, b: T, extra: u32) -> (T, T) {
        let w = self.pool.w(a).max(self.pool.w(b)) + extra;
        (self.pool.sext(a, w), self.pool.sext(b, w))
    }
    fn words(&mut self, p: &Val, n: &Val) -> R<T> {
        let p = self.addr(p)?;
        let n = self.concretize(n, 64)? as usize;
        if n == 0 {
            return Ok(self.pool.con(0, 1));
        }
        let v = self.load_bits(p, n)?;
        let t = self.term(&v, 8 * n as u32);
        Ok(self.pool.zext(t, 8 * n as u32 + 1))
    }

    fn vx(&mut self, k: u32, wr: u32, args: &[(TyR, Opd)], av: Vec<Val>) -> R<Option<Val>> {
        let name = VX[k as usize];
        match name {
            "vx_sym" => {
                let w = self.concretize(&av[0], 32)? as u32;
                let s = self.inputs.len() as u32;
                let t = self.pool.var(s, 0, w);
                self.order.push((false, self.inputs.len()));
                self.inputs.push((t, w, false));
                let z = self.pool.zext(t, wr);
                Ok(Some(self.mkv(z)))
            }
            "vx_choose" => {
                let n = self.concretize(&av[0], 64)? as u64;
                let v = self.choose(n)?;
                self.order.push((true, self.choose_vals.len()));
                self.choose_vals.push((64, v as u128));
                Ok(Some(Val::C(v as u128)))
            }
            "vx_symbolic" => Ok(Some(Val::C(1))),
            "vx_assume" => {
                let c = self.cond(&av[0], args[0].0.bits());
                self.assume(c)?;
                Ok(None)
            }
            "vx_check" => {
                let c = self.cond(&av[0], args[0].0.bits());
                let id = self.concretize(&av[1], 32)? as u32;
                self.check(c, id)?;
                Ok(None)
            }
            "vx_cover" => {
                let c = self.cond(&av[0], args[0].0.bits());
                let id = self.concretize(&av[1], 32)? as u32;
                if self.di < self.prefix.len() {
                    return Ok(None);
                }
                let hit = match self.pool.as_u128(c) {
                    Some(v) => v == 1 && !self.weak,
                    None => {
                        if !self.weak && self.ev.eval(&self.pool, &self.model, c) == Bv::S(1) {
                            true
                        } else if self.weak || self.covered.contains_key(&id) || self.cover_asked.get(&id).map_or(false, |n| *n >= 10) {
                            false
                        } else if self.settles(c) {
                            self.set_values(c).iter().any(|v| *v == Bv::S(1))
                        } else {
                            *self.cover_asked.entry(id).or_insert(0) += 1;
                            let mut q = self.pc.clone();
                            q.push(c);
                            let old = self.solver.timeout_ms;
                            self.solver.timeout_ms = 1000;
                            let r = self.solver.check(&self.pool, &q, true);
                            self.solver.timeout_ms = old;
                            r.0 == Res::Sat
                        }
                    }
                };
                if hit {
                    *self.covered.entry(id).or_insert(0) += 1;
                }
                Ok(None)
            }
            "vx_known" => {
                let id = self.concretize(&av[1], 32)? as u32;
                if self.m.opts.known.contains(&id) && self.known_tag.is_none() {
                    let c = self.cond(&av[0], args[0].0.bits());
                    if self.branch(c)? {
                        self.known_tag = Some(id);
                    }
                }
                Ok(None)
            }
            "vx_observe" => {
                let t = self.term(&av[0], 64);
                self.observed.push((t, 64));
                Ok(None)
            }
            "vx_log" => {
                let t = self.term(&av[0], 64);
                let v = self.ev.eval(&self.pool, &self.model, t);
                eprintln!("LOG {} = {}", self.pool.to_string(t, 8), v.hex(64));
                Ok(None)
            }
            "vx_concretize" => {
                let v = self.concretize(&av[0], 64)?;
                Ok(Some(Val::C(v)))
            }
            "vx_solve" => {
                let max = self.concretize(&av[0], 64)? as usize;
                if self.di < self.prefix.len() || self.set.is_some() {
                    return Ok(None);
                }
                self.in_time()?;
                let vars = self.pc.iter().fold(0, |a, c| a | self.pool.sup(*c));
                let list: Vec<T> = self.inputs.iter().map(|x| x.0).filter(|t| self.pool.sup(*t) & vars != 0).collect();
                if vars >> 127 != 0 || !self.enumerate(vars, list, max, self.solver.timeout_ms) {
                    return Err(End::Stuck("the solver did not find all solutions of the assumptions".into()));
                }
                Ok(None)
            }
            "vx_snap" => {
                let concrete = self.di == 0 && self.taken.is_empty() && self.order.is_empty() && self.pc.is_empty() && self.hs.is_empty() && self.observed.is_empty() && self.policy == 0;
                fn plain(v: &Val) -> bool {
                    match v {
                        Val::C(_) | Val::Undef => true,
                        Val::Agg(a) => a.iter().all(plain),
                        _ => false,
                    }
                }
                let concrete = concrete && self.frames.iter().all(|f| f.regs.iter().all(plain));
                if concrete && !self.snaps.contains_key(&self.entry) {
                    let mut o = self.objs.clone();
                    for x in o.iter_mut().flatten().filter(|x| !x.alive) {
                        x.data = vec![];
                        x.tag = vec![];
                    }
                    // no input was read yet: whatever is not concrete stems from uninitialised memory
                    for x in o.iter_mut().flatten() {
                        for t in x.tag.iter_mut().filter(|t| **t != 0) {
                            *t = UNINIT;
                        }
                    }
                    self.snaps.insert(self.entry, (o, self.frames.clone(), self.nvars));
                }
                Ok(None)
            }
            "vx_policy" => {
                self.policy = self.concretize(&av[0], 32)? as u32;
                Ok(None)
            }
            "vz_words" => {
                let t = self.words(&av[0], &av[1])?;
                self.newh(t)
            }
            "vz_u64" => {
                let t = self.term(&av[0], 64);
                let t = self.pool.zext(t, 65);
                self.newh(t)
            }
            "vz_i64" => {
                let t = self.term(&av[0], 64);
                self.newh(t)
            }
            "vz_add" | "vz_sub" => {
                let a = self.h(&av[0])?;
                let b = self.h(&av[1])?;
                let (a, b) = self.two(a, b, 1);
                let r = self.pool.bin(if name == "vz_add" { Bop::Add } else { Bop::Sub }, a, b);
                self.newh(r)
            }
            "vz_neg" => {
                let a = self.h(&av[0])?;
                let w = self.pool.w(a) + 1;
                let a = self.pool.sext(a, w);
                let r = self.pool.neg(a);
                self.newh(r)
            }
            "vz_mul" => {
                let a = self.h(&av[0])?;
                let b = self.h(&av[1])?;
                let w = self.pool.w(a) + self.pool.w(b);
                let a = self.pool.sext(a, w);
                let b = self.pool.sext(b, w);
                let (a, b) = if self.pool.as_const(a).is_some() { (b, a) } else { (a, b) };
                let r = self.pool.bin(Bop::Mul, a, b);
                self.newh(r)
            }
            "vz_mulwords" => {
                // (pa, words a, pb, words b, bytes per word): sum of word products
                let pa = self.addr(&av[0])?;
                let na = self.concretize(&av[1], 64)? as u64;
                let pb = self.addr(&av[2])?;
                let nb = self.concretize(&av[3], 64)? as u64;
                let wb = self.concretize(&av[4], 64)? as u64;
                let bits = 8 * wb as u32;
                // schoolbook order, so that the common case is structurally equal to the code
                let z = self.pool.con(0, bits);
                let mut acc = vec![z; (na + nb) as usize];
                for i in 0..na {
                    let x = self.load_bits(pa + i * wb, wb as usize)?;
                    let x = self.term(&x, bits);
                    let mut k = z;
                    for j in 0..nb {
                        let y = self.load_bits(pb + j * wb, wb as usize)?;
                        let y = self.term(&y, bits);
                        let p = self.pool.mul_atom(x, y);
                        let c = self.pool.zext(acc[(i + j) as usize], 2 * bits);
                        let k2 = self.pool.zext(k, 2 * bits);
                        let p = self.pool.bin(Bop::Add, p, c);
                        let p = self.pool.bin(Bop::Add, p, k2);
                        acc[(i + j) as usize] = self.pool.extract(p, 0, bits);
                        k = self.pool.extract(p, bits, bits);
                    }
                    acc[(i + nb) as usize] = k;
                }
                let mut r = acc[0];
                for x in &acc[1..] {
                    r = self.pool.concat(*x, r);
                }
                let w = self.pool.w(r) + 1;
                let r = self.pool.zext(r, w);
                self.newh(r)
            }
            "vz_shl" => {
                let a = self.h(&av[0])?;
                let n = self.concretize(&av[1], 64)? as u32;
                let z = self.pool.con_bv(Bv::zero(n), n);
                let r = if n == 0 { a } else { self.pool.concat(a, z) };
                self.newh(r)
            }
            "vz_shr" => {
                let a = self.h(&av[0])?;
                let n = self.concretize(&av[1], 64)? as u64;
                let w = self.pool.w(a);
                let n = n.min(w as u64 - 1) as u32;
                let r = self.pool.extract(a, n, w - n);
                self.newh(r)
            }
            "vz_lt" | "vz_eq" => {
                let a = self.h(&av[0])?;
                let b = self.h(&av[1])?;
                let (a, b) = self.two(a, b, 0);
                let r = if name == "vz_lt" { self.pool.slt(a, b) } else { self.pool.eq(a, b) };
                let r = self.pool.zext(r, wr);
                Ok(Some(self.mkv(r)))
            }
            "vz_ite" => {
                let c = self.cond(&av[0], args[0].0.bits());
                let a = self.h(&av[1])?;
                let b = self.h(&av[2])?;
                let (a, b) = self.two(a, b, 0);
                let r = self.pool.ite(c, a, b);
                self.newh(r)
            }
            "vz_bit" => {
                let a = self.h(&av[0])?;
                let n = self.concretize(&av[1], 64)? as u64;
                let w = self.pool.w(a);
                let n = n.min(w as u64 - 1) as u32;
                let r = self.pool.extract(a, n, 1);
                let r = self.pool.zext(r, wr);
                Ok(Some(self.mkv(r)))
            }
            "vz_low" => {
                let a = self.h(&av[0])?;
                let n = self.concretize(&av[1], 64)? as u32;
                if n == 0 {
                    let z = self.pool.con(0, 1);
                    return self.newh(z);
                }
                let w = self.pool.w(a).max(n);
                let a = self.pool.sext(a, w);
                let e = self.pool.extract(a, 0, n);
                let r = self.pool.zext(e, n + 1);
                self.newh(r)
            }
            "vz_divc" => {
                // non-negative a divided by a positive constant: quotient
                let a = self.h(&av[0])?;
                let d = self.h(&av[1])?;
                let (a, d) = self.two(a, d, 0);
                let r = self.pool.bin(Bop::UDiv, a, d);
                self.newh(r)
            }
            "vz_tou64" => {
                let a = self.h(&av[0])?;
                let w = self.pool.w(a).max(64);
                let a = self.pool.sext(a, w);
                let r = self.pool.extract(a, 0, 64);
                Ok(Some(self.mkv(r)))
            }
            _ => Err(End::Stuck(format!("vx {}", name))),
        }
    }
}

fn agg(v: &Val, n: usize) -> Arc<[Val]> {
    match v {
        Val::Agg(a) => a.clone(),
        _ => vec![Val::Undef; n].into(),
    }
}

fn insert_val(ty: &Ty, v: &Val, x: &Val, ix: &[u32]) -> Val {
    if ix.is_empty() {
        return x.clone();
    }
    let i = ix[0] as usize;
    let mut a: Vec<Val> = match v {
        Val::Agg(a) => a.to_vec(),
        _ => vec![Val::Undef; ty.count()],
    };
    a[i] = insert_val(&ty.elem(i), &a[i], x, &ix[1..]);
    Val::Agg(a.into())
}

fn float_bin(k: BinK, w: u32, x: u128, y: u128) -> u128 {
    if w == 32 {
        let (a, b) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
        let r = match k {
            BinK::FAdd => a + b,
            BinK::FSub => a - b,
            BinK::FMul => a * b,
            BinK::FDiv => a / b,
            _ => a % b,
        };
        r.to_bits() as u128
    } else {
        let (a, b) = (f64::from_bits(x as u64), f64::from_bits(y as u64));
        let r = match k {
            BinK::FAdd => a + b,
            BinK::FSub => a - b,
            BinK::FMul => a * b,
            BinK::FDiv => a / b,
            _ => a % b,
        };
        r.to_bits() as u128
    }
}
