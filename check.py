#!/opt/venv/bin/python
"""check.py <PROPERTY> [--tier quick|thorough] [--replay FILE]

Drives the real library in /repo under generated workloads with monitors attached.
Exit 0: held on everything explored.  Exit 1 + VIOLATION line: violated.
Exit 2: inconclusive (a monitor was never reached, or a worker died).
"""

import argparse
import ast
import json
import os
import pathlib
import shutil
import subprocess
import sys
import tempfile
import time

HERE = pathlib.Path(__file__).resolve().parent
sys.path.insert(0, str(HERE))
sys.dont_write_bytecode = True
PY = sys.executable
REPO = os.environ.get("VERIF_REPO", "/repo")


def module_table(prop):
    """FAMILIES, REQUIRED and RULE of a property module, without importing jax."""
    src = (HERE / "props" / f"{prop.lower()}.py").read_text()
    table = {}
    for node in ast.parse(src).body:
        if isinstance(node, ast.Assign) and len(node.targets) == 1:
            name = getattr(node.targets[0], "id", None)
            if name in {"FAMILIES", "REQUIRED", "RULE", "ASSUMPTIONS"}:
                table[name] = ast.literal_eval(node.value)
    return table


def executable_lines():
    """Lines of the library that can run, per file (denominator of the reach table)."""
    out = {}
    root = pathlib.Path(REPO) / "laplax"
    for f in sorted(root.rglob("*.py")):
        try:
            code = compile(f.read_bytes(), str(f), "exec")
        except SyntaxError:
            continue
        lines, stack = set(), [code]
        while stack:
            c = stack.pop()
            lines.update(ln for _, _, ln in c.co_lines() if ln)
            stack.extend(k for k in c.co_consts if hasattr(k, "co_lines"))
        out[str(f.relative_to(root))] = len(lines)
    return out


def known_findings(prop):
    """{mechanism: text} recorded for this property and not repaired."""
    out = {}
    p = HERE / "KNOWN_FINDINGS.txt"
    if p.exists():
        for line in p.read_text().splitlines():
            if line.startswith("finding:") and f"property={prop} " in line:
                rest = line.split(f"property={prop} ", 1)[1]
                mech, _, text = rest.partition(" ")
                out[mech.removeprefix("mechanism=")] = text
    return out


def plan(table, tier):
    """Deterministic list of (index, family, x64)."""
    cases = []
    for fi, (fam, counts) in enumerate(table["FAMILIES"].items()):
        n = counts[0] if tier == "quick" else counts[1]
        mode = counts[2] if len(counts) > 2 else "mixed"
        for j in range(n):
            x64 = {"mixed": j % 3 != 2, "x64": True, "x32": False}[mode]
            cases.append((fi * 100000 + j, fam, x64))
    return cases


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--family")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    prop, tier = a.prop, a.tier
    if tier not in {"quick", "thorough"}:
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    table = module_table(prop)
    if a.replay:
        rp = json.loads(pathlib.Path(a.replay).read_text())
        seed, tier = rp["seed"], rp["tier"]
        cases = [(rp["index"], rp["family"], rp["x64"])]
    else:
        cases = plan(table, tier)
        if a.family:
            cases = [c for c in cases if c[1] == a.family]
    deadline = 600 if tier == "quick" else 780
    # Families take turns, so a run that is cut short has still visited all of them.
    cases.sort(key=lambda c: (c[0] % 100000, c[0]))

    # Deal the cases of each precision to its own workers, slow families spread out.
    groups = {True: [c for c in cases if c[2]], False: [c for c in cases if not c[2]]}
    jobs = max(2, a.jobs)
    n32 = 0
    if groups[False]:
        n32 = max(1, round(jobs * len(groups[False]) / len(cases))) if groups[True] else jobs
        n32 = min(n32, jobs - 1) if groups[True] else jobs
    n64 = jobs - n32
    shares = []
    for x64, n in ((True, n64), (False, n32)):
        for k in range(n):
            part = [(i, f) for i, f, _ in groups[x64][k::n]]
            if part:
                shares.append((x64, part))

    work = tempfile.mkdtemp(prefix="verif-")
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
               JAX_PLATFORMS="cpu", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
               TMPDIR=work)
    procs = []
    for w, (x64, part) in enumerate(shares):
        cfg = {"prop": prop, "tier": tier, "seed": seed, "x64": x64, "cases": part,
               "deadline": deadline, "out": f"{work}/{w}.jsonl"}
        with open(f"{work}/{w}.err", "wb") as err:
            procs.append((cfg, subprocess.Popen(
                [PY, "-m", "vlib.worker", json.dumps(cfg)], cwd=HERE, env=env,
                stdout=err, stderr=err)))
    problems, recs, reach, unrun = [], [], {}, 0
    try:
        for cfg, p in procs:
            try:
                p.wait(timeout=max(5, deadline + 60 - (time.time() - t0)))
            except subprocess.TimeoutExpired:
                problems.append(f"worker timed out (x64={cfg['x64']})")
            if p.poll() is None:
                p.kill()
                p.wait()
        for w, (cfg, p) in enumerate(procs):
            got = 0
            path = pathlib.Path(cfg["out"])
            for line in path.read_text().splitlines() if path.exists() else []:
                try:
                    r = json.loads(line)
                except json.JSONDecodeError:
                    continue
                if "import_error" in r:
                    # The harness imports only the public surface; if the library
                    # cannot be imported that is an answer about the library.
                    problems.append("import: " + r["import_error"] + "\n" + r["tb"])
                elif "deadline" in r:
                    unrun += r["left"]
                elif "reach" in r:
                    for f, lns in r["reach"].items():
                        reach.setdefault(f, set()).update(lns)
                    got = r["done"]
                else:
                    recs.append(r)
            if p.returncode != 0 or (got == 0 and cfg["cases"]):
                tail = pathlib.Path(f"{work}/{w}.err").read_text(errors="replace")[-800:]
                problems.append(f"worker {w} exit {p.returncode}, {got} cases: {tail}")
    finally:
        for _, p in procs:
            if p.poll() is None:
                p.kill()
        shutil.rmtree(work, ignore_errors=True)

    # ---- judge -----------------------------------------------------------
    recs.sort(key=lambda r: r["index"])
    known = known_findings(prop)
    monitors, fams, sigs, findings = {}, {}, set(), {}
    violated, inconclusive, events = [], [], 0
    for r in recs:
        f = fams.setdefault(r["family"], {"cases": 0, "held": 0})
        f["cases"] += 1
        f["held"] += r["status"] == "held"
        events += r["events"]
        for m, n in r["monitors"].items():
            monitors[m] = monitors.get(m, 0) + n
        if r["monitors"]:
            sigs.add(r["sig"])
        if r["status"] == "violated":
            mechs = {v["monitor"] for v in r["violations"]}
            if mechs and mechs <= set(known):
                for m in mechs:
                    findings.setdefault(m, r)
            else:
                violated.append(r)
        elif r["status"] == "inconclusive":
            inconclusive.append(r)
    missing = [m for m in table.get("REQUIRED", []) if not monitors.get(m)]
    if a.family or a.replay:
        missing = []
    if tier == "quick" and unrun > 0.5 * len(cases):
        problems.append(f"out of time with {unrun} of {len(cases)} cases left")
    rc = 0
    for m in sorted(findings):
        print(f"KNOWN-FINDING: property={prop} {m} {known[m]}")
    if violated:
        rc = 1
        rdir = HERE / "replays"
        rdir.mkdir(exist_ok=True)
        shown = set()
        for r in violated:
            first = next(v for v in r["violations"] if v["monitor"] not in known)
            if first["monitor"] in shown:
                continue
            shown.add(first["monitor"])
            if len(shown) > 6:
                break
            if a.replay:
                path = a.replay
            else:
                path = rdir / f"{prop}-{seed}-{r['index']}.json"
                path.write_text(json.dumps({
                    "property": prop, "seed": seed, "tier": tier, "index": r["index"],
                    "family": r["family"], "x64": r["x64"], "case": r["descr"],
                    "violations": r["violations"],
                    "how": f"{PY} check.py {prop} --replay <this file>"}, indent=1))
                path = path.relative_to(HERE)
            print(f"VIOLATION property={prop} replay={path}")
            print(f"  monitor {first['monitor']}: {json.dumps(first['info'])[:1200]}")
            print(f"  case {json.dumps(r['descr'], default=str)[:600]}")
    elif problems or missing or not recs or len(inconclusive) > max(2, 0.02 * len(recs)):
        # A few undecided cases are reported in the evidence; many leave no answer.
        rc = 2
        for m in missing:
            print(f"INCONCLUSIVE property={prop} monitor never reached: {m}")
        for p in problems[:4]:
            print(f"INCONCLUSIVE property={prop} {p}")
        for r in inconclusive[:4]:
            print(f"INCONCLUSIVE property={prop} case {r['index']} {r['note']}")
    wall = time.time() - t0
    if not a.replay and not a.family:
        total = executable_lines()
        samples = []
        for fam in table["FAMILIES"]:
            rs = [r for r in recs if r["family"] == fam and r["monitors"]]
            for r in rs[:1]:
                samples.append({"index": r["index"], "family": fam, "x64": r["x64"],
                                "case": r["descr"], "monitors": r["monitors"]})
        ev = {
            "property": prop, "tier": tier, "seed": seed, "level": "exploration",
            "coverage": {
                "evaluations": len(recs),
                "distinct_nontrivial": len(sigs),
                "rule": table["RULE"],
                "samples": samples,
                "families": fams,
                "monitor_observations": dict(sorted(monitors.items())),
                "library_calls_observed": events,
                "library_lines_reached": {
                    f: [len(v), total.get(f, 0)] for f, v in sorted(reach.items())},
                "inconclusive_cases": len(inconclusive),
                "cases_not_run_for_time": unrun,
            },
            "assumptions": table.get("ASSUMPTIONS", []) + [
                "jax, numpy and scipy on CPU are trusted",
                "held on the executions above, not a proof"],
            "wall_s": round(wall, 2),
            "violations": len(violated),
        }
        (HERE / "evidence").mkdir(exist_ok=True)
        (HERE / "evidence" / f"{prop}.json").write_text(json.dumps(ev, indent=1, default=str))
    if a.v:
        for r in sorted(recs, key=lambda r: -r["t"])[:8]:
            print("  slow", r["index"], r["family"], r["t"], r["descr"])
        fam_t = {}
        for r in recs:
            fam_t.setdefault(r["family"], []).append(r["t"])
        print({k: round(sum(v) / len(v), 2) for k, v in fam_t.items()})
    verdict = {0: "held", 1: "VIOLATED", 2: "inconclusive"}[rc]
    print(f"{prop} {tier} seed={seed}: {verdict}; {len(recs)} cases, {len(sigs)} distinct, "
          f"{sum(monitors.values())} observations by {len(monitors)} monitors, "
          f"{events} library calls, {wall:.1f} s")
    sys.stdout.flush()
    os._exit(rc)


if __name__ == "__main__":
    main()
