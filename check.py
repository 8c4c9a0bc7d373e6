#!/usr/bin/env python3
"""Decides one property: check.py PROPERTY [--tier quick|thorough] [--only ENTRY,...]

Rebuilds the harnesses against /repo's working tree, executes them symbolically (engine/), replays
what the solver found on the natively compiled code, and writes evidence/<property>.json."""
import json, os, re, subprocess, sys, time, threading, hashlib

HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
os.environ["VERIF_BUILD"] = BUILD
os.environ["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
os.environ["CARGO_NET_OFFLINE"] = "true"
SYMX = os.path.join(HERE, "engine/target/release/symx")
sys.path.insert(0, HERE)
from props import PROPS

def log(*a):
    print(*a, flush=True)

def error(msg):
    log("ERROR:", msg)
    sys.exit(3)

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def build_engine():
    r = sh(["cargo", "build", "--release", "--offline"], cwd=os.path.join(HERE, "engine"))
    if r.returncode != 0:
        error("engine build failed\n" + r.stdout[-3000:])

def cfgs(width):
    return ["astro_verif"] + (["astro_verif_w8"] if width == 8 else [])

def build_ir(pid, feats, width, res):
    out = os.path.join(BUILD, f"{pid}_w{width}.ll")
    r = sh([os.path.join(HERE, "mkir.sh"), out, feats] + cfgs(width))
    res[("ir", width)] = (r.returncode, out, r.stdout)

def build_native(feats, width, profile, res):
    tgt = os.path.join(BUILD, f"nat_w{width}")
    fl = " ".join("--cfg " + c for c in cfgs(width)) + " -A warnings -A overflowing_literals"
    env = dict(os.environ, RUSTFLAGS=fl, CARGO_TARGET_DIR=tgt)
    r = sh(["cargo", "build", "--offline", "--profile", profile, "--bin", "replay", "--no-default-features", "--features", feats], cwd=os.path.join(HERE, "harness"), env=env)
    res[(profile, width)] = (r.returncode, os.path.join(tgt, profile, "replay"), r.stdout)

def trace_text(entry, tr):
    return "entry %s\n" % entry + "".join("in %d %d %d\n" % tuple(x) for x in tr["inputs"]) + "end\n"

def replay(binary, text, fill=0, fence=0, tag="r"):
    f = os.path.join(BUILD, f"replay_{os.getpid()}_{tag}.txt")
    open(f, "w").write(text)
    try:
        r = subprocess.run([binary, f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=120, env=dict(os.environ, RP_FILL=str(fill), RP_FENCE=str(fence)))
        out = [l for l in r.stdout.splitlines() if l and not l.startswith("log")]
        if r.returncode < 0:
            out.append("signal %d" % -r.returncode)
        elif r.returncode != 0:
            out.append("exit %d" % r.returncode)
        return out
    except subprocess.TimeoutExpired:
        return ["timeout"]
    finally:
        os.unlink(f)

def bad(line):
    return line.split(" ")[0] in ("fail", "panic", "signal", "timeout", "exit")

def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    a = sys.argv[2:]
    while a:
        k = a.pop(0)
        if k == "--tier": tier = a.pop(0)
        elif k == "--only": only = a.pop(0).split(",")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    P = PROPS[pid]
    runs = [r for r in P["runs"] if tier == "thorough" or r.get("tier", "quick") == "quick"]
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    kf = json.load(open(os.path.join(HERE, "known_findings.json")))
    known = {k["id"]: k for k in kf["known"] if k["property"] == pid}
    build_engine()
    feats = P["features"]
    widths = sorted({r.get("width", 64) for r in runs})
    res = {}
    ths = []
    for w in widths:
        ths.append(threading.Thread(target=build_ir, args=(pid, feats, w, res)))
        ths.append(threading.Thread(target=build_native, args=(feats, w, "native", res)))
    [t.start() for t in ths]; [t.join() for t in ths]
    notes = []
    for w in list(widths):
        for kind in ("ir", "native"):
            if res[(kind, w)][0] != 0:
                if w == 8 and len(widths) > 1 and res[("ir", 64)][0] == 0 and res[("native", 64)][0] == 0:
                    notes.append("the 8-bit-word build does not compile on this tree; its runs were skipped")
                    if w in widths: widths.remove(w)
                else:
                    error(f"build of {kind} (w{w}) failed\n" + res[(kind, w)][2][-4000:])
    tb = time.time() - t0
    log(f"# {pid} {P['title']}: built in {tb:.1f}s")
    engine_runs, violations, known_hits, samples = [], [], {}, []
    validated = 0
    funcs = {}
    tot = dict(paths=0, infeasible=0, forks=0, insts=0, checks=0, trivial=0, queries=0, sat=0, unsat=0, unknown=0, solver_s=0.0, cross_agree=0, cross_unknown=0)
    incomplete = []
    for ri, run in enumerate(runs):
        w = run.get("width", 64)
        if w not in widths:
            continue
        entries = [e for e in run["entries"] if only is None or e in only]
        if not entries:
            continue
        out = os.path.join(BUILD, f"{pid}_{ri}.json")
        cmd = [SYMX, "--ir", res[("ir", w)][1], "--entries", ",".join(entries), "--out", out,
               "--deadline", str(run.get("deadline", 200)), "--timeout", str(run.get("timeout", 10000)),
               "--btimeout", str(run.get("btimeout", 3000)),
               "--exact", str(run.get("exact", 16)), "--known", ",".join(str(k) for k in known), "--samples", str(run.get("samples", 12)), "-v"] + run.get("opts", [])
        r = sh(cmd)
        if r.returncode != 0 or not os.path.exists(out):
            error("engine failed:\n" + r.stdout[-3000:])
        J = json.load(open(out))
        os.unlink(out)
        for k in ("queries", "sat", "unsat", "unknown", "cross_agree", "cross_unknown"):
            tot[k] += J[k]
        tot["solver_s"] += J["solver_s"]
        for n, h, t in J["functions"]:
            if not n.startswith(("core::", "alloc::", "std::")):
                o = funcs.get((w, n), (0, t)); funcs[(w, n)] = (max(o[0], h), t)
        for e, s in J["entries"].items():
            for k in ("paths", "infeasible", "forks", "insts", "checks", "trivial"):
                tot[k] += s[k]
            log(f"  {e} (w{w}): {s['paths']} paths, {s['checks']} checks, {len(s['violations'])} failing, undecided {sum(s['undecided_checks'].values())}, stuck {sum(s['stuck'].values())}, unfinished {s['unfinished']}, cpu {s['cpu_s']:.1f}s, covers {s['covered']}")
            engine_runs.append(dict(entry=e, word_bits=w, bounds=run.get("bounds", P.get("bounds", "")), paths=s["paths"], checks=s["checks"], decided_by_simplification=s["trivial"], forks=s["forks"], undecided_checks=s["undecided_checks"], paths_not_confirmed_feasible=s["unconfirmed_paths"], stuck=s["stuck"], unfinished=s["unfinished"], covers=s["covered"], checks_by_id=s["check_ids"], cpu_s=s["cpu_s"], complete=not (s["unfinished"] or s["stuck"] or s["undecided_checks"])))
            if s["unfinished"] or s["stuck"] or s["undecided_checks"]:
                incomplete.append(e)
            for k, n in s["known_fail"].items():
                known_hits[int(k)] = known_hits.get(int(k), 0) + n
            for v in s["violations"]:
                if v["trace"]["known"] >= 0:
                    continue
                violations.append((e, w, v))
            # the sampled paths, natively
            if s["samples"]:
                txt = "".join(trace_text(e, t) for t in s["samples"])
                o = replay(res[("native", w)][1], txt)
                if len(o) != len(s["samples"]):
                    o = [(replay(res[("native", w)][1], trace_text(e, t)) or ["none"])[-1] for t in s["samples"]]
                for t, l in zip(s["samples"], o):
                    exp = "ok [" + ", ".join(str(x) for x in t["observed"]) + "]"
                    if l == exp:
                        validated += 1
                    elif bad(l):
                        violations.append((e, w, dict(msg="native run of an explored path: " + l, stack=[], uninit=False, trace=t)))
                    else:
                        error(f"native run disagrees with the symbolic run of {e}: {l} instead of {exp}\n" + trace_text(e, t))
                samples.append(dict(entry=e, inputs=[[x[0], hex(x[1])] for x in s["samples"][0]["inputs"]], native=o[0]))
            if not s["paths"] and not s["violations"]:
                error(f"{e}: no path was completed ({s['stuck']})")
        if violations:
            break
    # replay what failed
    confirmed, unconfirmed = [], []
    if violations:
        for e, w, v in violations[:6]:
            txt = trace_text(e, v["trace"])
            got = None
            for prof in ("native", "nativerel"):
                if (prof, w) not in res:
                    build_native(feats, w, prof, res)
                if res[(prof, w)][0] != 0:
                    continue
                for fence in (0, 1, 2):
                    for fill in (0, 255, 170, 85, 128, 1):
                        o = replay(res[(prof, w)][1], txt, fill, fence)
                        if any(bad(l) for l in o):
                            got = dict(profile=prof, fill=fill, fence=fence, outcome=[l for l in o if bad(l)][0]); break
                    if got: break
                if got: break
            (confirmed if got else unconfirmed).append((e, w, v, got))
    tot["seconds"] = time.time() - t0
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking",
              coverage=dict(states=tot["paths"], transitions=tot["forks"] + tot["paths"], traces_validated_against_impl=validated, samples=samples[:8] or [dict(note="no completed path")],
                            rule="a state is one completed symbolic path (all inputs that take it); a transition is one solver-decided fork or path start",
                            instructions=tot["insts"], assertions_checked=tot["checks"], assertions_decided_by_simplification=tot["trivial"],
                            solver=dict(queries=tot["queries"], sat=tot["sat"], unsat=tot["unsat"], unknown=tot["unknown"], seconds=round(tot["solver_s"], 2), rechecked_with_z3=tot["cross_agree"], z3_no_answer=tot["cross_unknown"]),
                            functions_encoded=[f"w{w} {n} ({h}/{t} blocks)" for (w, n), (h, t) in sorted(funcs.items())],
                            entries=engine_runs, incomplete_entries=incomplete, known_findings_seen={str(k): v for k, v in known_hits.items()}, notes=notes),
              assumptions=P.get("assumptions", []) + COMMON, wall_s=round(time.time() - t0, 2), violations=len(confirmed))
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    for k, n in sorted(known_hits.items()):
        log(f"KNOWN-FINDING: property={pid} {known[k]['what']}")
    if confirmed:
        d = os.path.join(HERE, "evidence", "replay"); os.makedirs(d, exist_ok=True)
        for i, (e, w, v, got) in enumerate(confirmed):
            f = os.path.join(d, f"{pid}_{i}.txt")
            open(f, "w").write("# " + v["msg"] + "\n# native outcome: " + json.dumps(got) + f"\n# word bits {w}; rerun: RP_FILL={got['fill']} RP_FENCE={got['fence']} {res[(got['profile'], w)][1]} {f}\n# stack: " + " < ".join(v["stack"]) + "\n" + trace_text(e, v["trace"]))
            log(f"  {e} (w{w}): {v['msg']} in {' < '.join(v['stack'][:4])}; natively: {got}")
            log(f"VIOLATION property={pid} replay={f}")
        sys.exit(1)
    if unconfirmed:
        e, w, v, _ = unconfirmed[0]
        error(f"{e} (w{w}): '{v['msg']}' in {v['stack'][:4]} does not reproduce natively\n" + trace_text(e, v["trace"]))
    log(f"# {pid} held: {tot['paths']} paths, {tot['checks']} assertions, {tot['queries']} queries, {validated} paths validated natively, {time.time()-t0:.1f}s" + (f"; not fully decided: {incomplete}" if incomplete else ""))

COMMON = [
    "rustc's LLVM IR of the dev profile (debug assertions, overflow checks, opt-level 1) represents the code; optimised builds are only exercised when a violation is replayed",
    "allocation succeeds; the allocator returns non-overlapping memory of arbitrary content",
    "the symbolic executor and its SAT solver are trusted; sampled unsatisfiable queries are re-decided by Z3 and sampled paths are re-run natively on every run",
]
main()
