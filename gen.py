#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json, os, subprocess
from props import PROPS, NOT_APPLICABLE
HERE = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for k, p in sorted({**PROPS, **NOT_APPLICABLE}.items()):
        assert len(p["title"]) <= 80, k
        f.write(json.dumps(dict(id=k, title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]),
                                why_tests_cant=p["why"], anchors=dict(files=p["files"], mechanism=p["mech"],
                                hook_needed="8-bit word build (cfg astro_verif_w8)" if any(r["width"] == 8 for r in p.get("runs", [])) else None))) + "\n")
hook = [l.split()[0] for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], stdout=subprocess.PIPE, text=True).stdout.splitlines() if l.split(" ", 1)[1].startswith("verif hook")]
json.dump(dict(version=1, setup_cmd="./setup.sh",
    hooks=dict(guard="cfg astro_verif_w8", enable="RUSTFLAGS=\"--cfg astro_verif_w8\" builds the crate with 8-bit words; the checks build it both ways", source_commits=hook),
    checks=[dict(property=k, quick_cmd=f"python3 check.py {k}", thorough_cmd=f"python3 check.py {k} --tier thorough",
                 technique="symbolic execution of the compiled LLVM IR, decided by SAT over bit-vectors, replayed natively",
                 level="model_checking",
                 level_note=(p["level_note"] + " " if p["level_note"] else "") + "Decided for every value within these bounds: " + p["bounds"] + " Assertions the solver did not decide in time, and entries it did not finish, are listed in the evidence. Trusted: rustc's IR, the symbolic executor and its SAT solver (samples are re-decided by Z3 and re-run natively).")
            for k, p in sorted(PROPS.items())],
    not_applicable=[dict(property=k, reason=p["reason"]) for k, p in sorted(NOT_APPLICABLE.items())],
    notes="See DESIGN.md."), open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
# DESIGN.md from design.tmpl
t = open(os.path.join(HERE, "design.tmpl")).read()
kf = json.load(open(os.path.join(HERE, "known_findings.json")))
tab = []
for k, p in sorted(PROPS.items()):
    ents = "; ".join(f"w{r['width']}{' (thorough)' if r.get('tier') else ''}: " + " ".join(r["entries"]) for r in p["runs"])
    tab.append(f"**{k} {p['title']}.** {p.get('design') or p['mech'][0]['name'].capitalize() + ' and the other anchored functions are executed symbolically and compared with the exact value.'} Inputs: {p['text']}. Bounds: {p['bounds']}\n  Entries: {ents}. Why tests cannot: {p['why']}\n")
t = t.replace("@@TABLE@@", "\n".join(tab))
t = t.replace("@@NA@@", "\n".join(f"* **{k} {p['title']}**: {p['reason']}" for k, p in sorted(NOT_APPLICABLE.items())))
t = t.replace("@@FIXED@@", "\n".join("* " + x for x in kf["fixed"]))
t = t.replace("@@KNOWN@@", "\n".join(f"* {x['property']}: {x['what']} ({x['input']})" for x in kf["known"]))
res = dict(l.split(" ", 1) for l in open(os.path.join(HERE, "seeded_results.txt")).read().splitlines())
rows = []
for d in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    m = json.load(open(os.path.join(HERE, "seeded", d, "meta.json")))
    rows.append(f"| {d} | {m['property']} | {m['needs']} | {res.get(d, '?')} |")
t = t.replace("@@SEEDED@@", "| bug | property | needs | quick check |\n|---|---|---|---|\n" + "\n".join(rows))
open(os.path.join(HERE, "DESIGN.md"), "w").write(t)
