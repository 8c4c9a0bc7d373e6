//! symx: symbolic execution of a whole-program LLVM IR module with an SMT solver.

mod blast;
mod bv;
mod exec;
mod ir;
mod sat;
mod term;
mod z3;

use exec::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::fmt::Write as _;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

struct Shared {
    q: Mutex<Queue>,
    cv: Condvar,
    hungry: AtomicU64,
    stop: AtomicBool,
    entry_stop: Vec<AtomicBool>,
}

struct Queue {
    items: Vec<(usize, Work)>,
    waiting: usize,
    done: bool,
}

#[derive(Default, Clone)]
struct EntryStats {
    paths: u64,
    infeasible: u64,
    insts: u64,
    checks: u64,
    trivial: u64,
    forks: u64,
    known: BTreeMap<u32, u64>,
    known_fail: BTreeMap<u32, u64>,
    covered: BTreeMap<u32, u64>,
    check_ids: BTreeMap<u32, u64>,
    violations: Vec<(String, Violation)>,
    stuck: BTreeMap<String, u64>,
    unfinished: u64,
    weak_paths: u64,
    undecided: BTreeMap<u32, u64>,
    samples: Vec<(Trace, String)>,
    seen: u64,
    time_us: u64,
    max_path_us: u64,
}

impl EntryStats {
    fn merge(&mut self, o: EntryStats, maxs: usize) {
        self.paths += o.paths;
        self.infeasible += o.infeasible;
        self.insts += o.insts;
        self.checks += o.checks;
        self.trivial += o.trivial;
        self.forks += o.forks;
        for (k, v) in o.known {
            *self.known.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.known_fail {
            *self.known_fail.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.covered {
            *self.covered.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.check_ids {
            *self.check_ids.entry(k).or_insert(0) += v;
        }
        self.violations.extend(o.violations);
        for (k, v) in o.stuck {
            *self.stuck.entry(k).or_insert(0) += v;
        }
        self.unfinished += o.unfinished;
        self.weak_paths += o.weak_paths;
        for (k, v) in o.undecided {
            *self.undecided.entry(k).or_insert(0) += v;
        }
        self.samples.extend(o.samples);
        let mut i = 7usize;
        while self.samples.len() > maxs {
            i = i.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            let k = (i >> 33) % self.samples.len();
            self.samples.swap_remove(k);
        }
        self.time_us += o.time_us;
        self.max_path_us = self.max_path_us.max(o.max_path_us);
    }
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn js_trace(t: &Trace) -> String {
    let mut o = String::from("{\"inputs\":[");
    for (i, x) in t.inputs.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        let _ = write!(o, "[{},{},{}]", x.w, x.val.low128() as u64, x.choose as u32);
    }
    o.push_str("],\"observed\":[");
    for (i, x) in t.observed.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        let _ = write!(o, "{}", x);
    }
    let _ = write!(o, "],\"known\":{}}}", t.known.map(|x| x as i64).unwrap_or(-1));
    o
}

fn js_map<K: std::fmt::Display, V: std::fmt::Display>(m: &BTreeMap<K, V>) -> String {
    let v: Vec<String> = m.iter().map(|(k, v)| format!("{}:{}", js(&k.to_string()), v)).collect();
    format!("{{{}}}", v.join(","))
}

fn main() {
    let t0 = Instant::now();
    let mut ir = String::new();
    let mut entries: Vec<String> = vec![];
    let mut z3p = String::from("/usr/lib/x86_64-linux-gnu/libz3.so");
    let mut threads = 8usize;
    let mut timeout = 60_000u32;
    let mut exact = 16u32;
    let mut btimeout = 3_000u32;
    let mut known: HashSet<u32> = HashSet::new();
    let mut out = String::new();
    let mut deadline = 600u64;
    let mut maxs = 24usize;
    let mut maxviol = 3usize;
    let mut smt_dir = String::new();
    let mut verbose = false;
    let mut pool_limit = 1_500_000usize;
    let mut solver_limit = 20_000usize;
    let mut max_insts = 50_000_000u64;
    let mut trace = false;
    let mut a = std::env::args().skip(1);
    while let Some(k) = a.next() {
        let mut v = || a.next().unwrap_or_default();
        match k.as_str() {
            "--ir" => ir = v(),
            "--entries" => entries = v().split(',').map(|s| s.to_string()).collect(),
            "--z3" => z3p = v(),
            "--threads" => threads = v().parse().unwrap(),
            "--timeout" => timeout = v().parse().unwrap(),
            "--btimeout" => btimeout = v().parse().unwrap(),
            "--exact" => exact = v().parse().unwrap(),
            "--known" => known = v().split(',').filter_map(|s| s.parse().ok()).collect(),
            "--out" => out = v(),
            "--deadline" => deadline = v().parse().unwrap(),
            "--samples" => maxs = v().parse().unwrap(),
            "--maxviol" => maxviol = v().parse().unwrap(),
            "--smt" => smt_dir = v(),
            "--pool" => pool_limit = v().parse().unwrap(),
            "--solver" => solver_limit = v().parse().unwrap(),
            "--max-insts" => max_insts = v().parse().unwrap(),
            "--trace" => trace = true,
            "-v" => verbose = true,
            _ => {
                eprintln!("unknown option {}", k);
                std::process::exit(2);
            }
        }
    }
    let ver = match z3::load(&z3p) {
        Ok(v) => v,
        Err(e) => {
            eprintln!("{}", e);
            std::process::exit(2);
        }
    };
    let text = std::fs::read_to_string(&ir).expect("read ir");
    let prog = std::thread::Builder::new().stack_size(256 << 20).spawn(move || ir::parse(&text)).unwrap().join().unwrap();
    let parse_s = t0.elapsed().as_secs_f64();
    let opts = Options { known, max_insts, max_values: 4096, malloc_limit: 1 << 28, trace };
    let mut eidx = vec![];
    for e in &entries {
        match prog.fidx.get(e.as_str()) {
            Some(i) => eidx.push(*i),
            None => {
                eprintln!("no entry function {}", e);
                std::process::exit(2);
            }
        }
    }
    let m = Machine::new(prog, opts);
    let items: Vec<(usize, Work)> = (0..eidx.len()).rev().map(|i| (i, Work { prefix: vec![], model: Default::default(), weak: false, set: None })).collect();
    let sh = Shared {
        q: Mutex::new(Queue { items, waiting: 0, done: false }),
        cv: Condvar::new(),
        hungry: AtomicU64::new(0),
        stop: AtomicBool::new(false),
        entry_stop: (0..eidx.len()).map(|_| AtomicBool::new(false)).collect(),
    };
    let total: Mutex<(Vec<EntryStats>, z3::Stats, HashMap<usize, HashSet<u32>>, Vec<String>, (u64, u64, u64))> = Mutex::new((vec![EntryStats::default(); eidx.len()], z3::Stats::default(), HashMap::new(), vec![], (0, 0, 0)));
    let nviol: Vec<AtomicU64> = (0..eidx.len()).map(|_| AtomicU64::new(0)).collect();
    let end_at = t0 + Duration::from_secs(deadline);
    std::thread::scope(|s| {
        for ti in 0..threads {
            let (sh, m, eidx, total, nviol, smt_dir, entries) = (&sh, &m, &eidx, &total, &nviol, &smt_dir, &entries);
            std::thread::Builder::new()
                .stack_size(1 << 30)
                .spawn_scoped(s, move || {
                    let mut ex = Exec::new(m, timeout, exact);
                    ex.branch_timeout = btimeout.min(timeout);
                    let mut st: Vec<EntryStats> = vec![EntryStats::default(); eidx.len()];
                    let mut local: Vec<(usize, Work)> = vec![];
                    let mut rng = 0x9E3779B97F4A7C15u64 ^ (ti as u64 + 1);
                    let (mut xn, mut xseen, mut x_agree, mut x_unknown) = (0u64, 1u64, 0u64, 0u64);
                    loop {
                        let item = match local.pop() {
                            Some(x) => Some(x),
                            None => {
                                let mut q = sh.q.lock().unwrap();
                                loop {
                                    if q.done {
                                        break None;
                                    }
                                    if let Some(x) = q.items.pop() {
                                        break Some(x);
                                    }
                                    q.waiting += 1;
                                    sh.hungry.fetch_add(1, Ordering::SeqCst);
                                    if q.waiting == threads {
                                        q.done = true;
                                        sh.cv.notify_all();
                                        break None;
                                    }
                                    q = sh.cv.wait(q).unwrap();
                                    q.waiting -= 1;
                                    sh.hungry.fetch_sub(1, Ordering::SeqCst);
                                }
                            }
                        };
                        let Some((e, w)) = item else { break };
                        if Instant::now() > end_at {
                            sh.stop.store(true, Ordering::SeqCst);
                        }
                        if sh.stop.load(Ordering::SeqCst) || sh.entry_stop[e].load(Ordering::SeqCst) {
                            st[e].unfinished += 1;
                            continue;
                        }
                        ex.stats = PathStats::default();
                        ex.end_at = end_at;
                        let p0 = Instant::now();
                        let (end, tr) = ex.run_path(eidx[e], w);
                        let us = p0.elapsed().as_micros() as u64;
                        let s = &mut st[e];
                        s.time_us += us;
                        s.max_path_us = s.max_path_us.max(us);
                        s.insts += ex.stats.insts;
                        s.checks += ex.stats.checks;
                        s.trivial += ex.stats.checks_trivial;
                        s.forks += ex.stats.forks;
                        for (k, v) in std::mem::take(&mut ex.covered) {
                            *s.covered.entry(k).or_insert(0) += v;
                        }
                        for (k, v) in std::mem::take(&mut ex.check_ids) {
                            *s.check_ids.entry(k).or_insert(0) += v;
                        }
                        for (k, v) in std::mem::take(&mut ex.undecided) {
                            *s.undecided.entry(k).or_insert(0) += v;
                        }
                        if let Some(k) = tr.known {
                            *s.known.entry(k).or_insert(0) += 1;
                        }
                        match end {
                            End::Exit | End::Stop => {
                                s.paths += 1;
                                if tr.weak {
                                    s.weak_paths += 1;
                                } else if tr.known.is_none() {
                                    // reservoir sample
                                    s.seen += 1;
                                    if s.samples.len() < maxs {
                                        s.samples.push((tr, "exit".into()));
                                    } else {
                                        rng = rng.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                                        let k = (rng >> 33) % s.seen;
                                        if (k as usize) < maxs {
                                            s.samples[k as usize] = (tr, "exit".into());
                                        }
                                    }
                                }
                            }
                            End::Infeasible => s.infeasible += 1,
                            End::Late => s.unfinished += 1,
                            End::Fail(msg) => {
                                s.paths += 1;
                                let v = ex.violations.pop().unwrap();
                                if let Some(k) = tr.known {
                                    *s.known_fail.entry(k).or_insert(0) += 1;
                                    if !s.violations.iter().any(|x| x.1.trace.known == Some(k)) {
                                        s.violations.push((msg, v));
                                    }
                                } else {
                                    if verbose {
                                        eprintln!("FAIL {} {} {:?}", entries[e], msg, &v.stack[..v.stack.len().min(4)]);
                                    }
                                    s.violations.push((msg, v));
                                    if nviol[e].fetch_add(1, Ordering::SeqCst) + 1 >= maxviol as u64 {
                                        sh.entry_stop[e].store(true, Ordering::SeqCst);
                                    }
                                }
                            }
                            End::Stuck(msg) => {
                                let k = format!("{} @ {}", msg, ex.stack_fail.iter().take(3).cloned().collect::<Vec<_>>().join(" < "));
                                if verbose && !s.stuck.contains_key(&k) {
                                    eprintln!("STUCK {} {} weak {} {:?}", entries[e], k, tr.weak, tr.inputs);
                                }
                                *s.stuck.entry(k).or_insert(0) += 1;
                            }
                        }
                        for w in ex.new_work.drain(..) {
                            local.push((e, w));
                        }
                        if sh.hungry.load(Ordering::SeqCst) > 0 && local.len() > 1 {
                            let mut q = sh.q.lock().unwrap();
                            let n = (local.len() + 1) / 2;
                            q.items.extend(local.drain(..n));
                            sh.cv.notify_all();
                        }
                        // re-decide a sample of the unsatisfiable property queries with Z3
                        if !ex.unsat_samples.is_empty() && xn < 6 && (xseen & (xseen.wrapping_sub(1))) == 0 {
                            let c = ex.unsat_samples.swap_remove(xseen as usize % ex.unsat_samples.len());
                            let mut zs = z3::Solver::new(3000, exact);
                            if !smt_dir.is_empty() {
                                let t = zs.smt2(&ex.pool, &c);
                                let _ = std::fs::write(format!("{}/{}_{}_{}.smt2", smt_dir, entries[e], ti, xn), format!("{}\n(check-sat)\n", t));
                            }
                            xn += 1;
                            match zs.check(&ex.pool, &c, false).0 {
                                z3::Res::Unsat => x_agree += 1,
                                z3::Res::Unknown => x_unknown += 1,
                                z3::Res::Sat => {
                                    *st[e].stuck.entry("the two solvers disagree".into()).or_insert(0) += 1;
                                }
                            }
                        }
                        if !ex.unsat_samples.is_empty() {
                            xseen += 1;
                            ex.unsat_samples.clear();
                        }
                        if ex.pool.len() > pool_limit || ex.solver.size() > solver_limit {
                            ex.renew(timeout, exact);
                        }
                    }
                    let mut t = total.lock().unwrap();
                    if verbose && ti == 0 {
                        let mut v: Vec<_> = ex.sites.iter().collect();
                        v.sort_by_key(|x| std::cmp::Reverse(x.1 .1));
                        for ((f, b), (n, us)) in v.iter().take(14) {
                            eprintln!("  site {} blk {}: {} queries {:.2}s", ir::demangle(&m.prog.funcs[*f].name), b, n, *us as f64 / 1e6);
                        }
                    }
                    for (i, x) in st.into_iter().enumerate() {
                        t.0[i].merge(x, maxs);
                    }
                    t.4 .0 += x_agree;
                    t.4 .1 += x_unknown;
                    let ss = ex.solver.sat_stats();
                    t.4 .2 += ss.0;
                    let z = &ex.solver.stats;
                    t.1.queries += z.queries;
                    t.1.sat += z.sat;
                    t.1.unsat += z.unsat;
                    t.1.unknown += z.unknown;
                    t.1.time_us += z.time_us;
                    t.1.max_us = t.1.max_us.max(z.max_us);
                    t.1.refinements += z.refinements;
                    for (f, b) in &ex.blocks_hit {
                        t.2.entry(*f).or_default().extend(b.iter().copied());
                    }
                })
                .unwrap();
        }
    });
    let (es, zs, hit, _, xc) = total.into_inner().unwrap();
    let mut o = String::new();
    let _ = write!(
        o,
        "{{\"z3\":{},\"wall_s\":{:.3},\"parse_s\":{:.3},\"threads\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"refinements\":{},\"cross_agree\":{},\"cross_unknown\":{},\n\"entries\":{{",
        js(&ver),
        t0.elapsed().as_secs_f64(),
        parse_s,
        threads,
        zs.queries,
        zs.sat,
        zs.unsat,
        zs.unknown,
        zs.time_us as f64 / 1e6,
        zs.max_us as f64 / 1e6,
        zs.refinements,
        xc.0,
        xc.1
    );
    for (i, s) in es.iter().enumerate() {
        if i > 0 {
            o.push_str(",\n");
        }
        let viol: Vec<String> = s
            .violations
            .iter()
            .map(|(m, v)| {
                let st: Vec<String> = v.stack.iter().take(12).map(|x| js(x)).collect();
                format!("{{\"msg\":{},\"stack\":[{}],\"uninit\":{},\"trace\":{}}}", js(m), st.join(","), v.uninit, js_trace(&v.trace))
            })
            .collect();
        let sam: Vec<String> = s.samples.iter().map(|(t, _)| js_trace(t)).collect();
        let _ = write!(
            o,
            "{}:{{\"paths\":{},\"infeasible\":{},\"insts\":{},\"checks\":{},\"trivial\":{},\"forks\":{},\"unfinished\":{},\"unconfirmed_paths\":{},\"undecided_checks\":{},\"cpu_s\":{:.3},\"max_path_s\":{:.3},\"known\":{},\"known_fail\":{},\"covered\":{},\"check_ids\":{},\"stuck\":{},\"violations\":[{}],\"samples\":[{}]}}",
            js(&entries[i]),
            s.paths,
            s.infeasible,
            s.insts,
            s.checks,
            s.trivial,
            s.forks,
            s.unfinished,
            s.weak_paths,
            js_map(&s.undecided),
            s.time_us as f64 / 1e6,
            s.max_path_us as f64 / 1e6,
            js_map(&s.known),
            js_map(&s.known_fail),
            js_map(&s.covered),
            js_map(&s.check_ids),
            js_map(&s.stuck),
            viol.join(","),
            sam.join(",")
        );
    }
    o.push_str("},\n\"functions\":[");
    let mut fs: Vec<(String, usize, usize)> = hit.iter().map(|(f, b)| (ir::demangle(&m.prog.funcs[*f].name), b.len(), m.prog.funcs[*f].blocks.len())).collect();
    fs.sort();
    for (i, (n, h, t)) in fs.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        let _ = write!(o, "[{},{},{}]", js(n), h, t);
    }
    o.push_str("]}\n");
    if out.is_empty() {
        print!("{}", o);
    } else {
        std::fs::write(&out, o).expect("write out");
    }
    if verbose {
        for (i, s) in es.iter().enumerate() {
            eprintln!(
                "{}: paths {} infeasible {} insts {} checks {} ({} trivial) forks {} viol {} stuck {} unfinished {} unconfirmed {} undecided {:?} cpu {:.1}s maxpath {:.2}s covered {:?} known {:?}/{:?}",
                entries[i],
                s.paths,
                s.infeasible,
                s.insts,
                s.checks,
                s.trivial,
                s.forks,
                s.violations.len(),
                s.stuck.values().sum::<u64>(),
                s.unfinished,
                s.weak_paths,
                s.undecided,
                s.time_us as f64 / 1e6,
                s.max_path_us as f64 / 1e6,
                s.covered,
                s.known,
                s.known_fail
            );
        }
        eprintln!("z3 {} wall {:.1}s queries {} (sat {} unsat {} unknown {}) solver {:.1}s max {:.2}s refinements {} conflicts {} cross {}/{}", ver, t0.elapsed().as_secs_f64(), zs.queries, zs.sat, zs.unsat, zs.unknown, zs.time_us as f64 / 1e6, zs.max_us as f64 / 1e6, zs.refinements, xc.2, xc.0, xc.1);
    }
    // skip destructors of large pools
    std::process::exit(0);
}
