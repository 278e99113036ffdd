"""Writes MANIFEST.json from the property modules that exist."""

import ast
import json
import pathlib

HERE = pathlib.Path(__file__).resolve().parent.parent
TECH = {
    "C01": "runtime monitoring: client-boundary product monitor vs dense J^T H J oracle",
    "C02": "runtime monitoring: product monitor vs independent dense Hessian oracle",
    "C03": "runtime monitoring: metamorphic trace of loaders and partitions vs whole-data oracle",
    "C04": "runtime monitoring: dense/diagonal extraction vs the operator's recorded products",
    "C05": "runtime monitoring: spectral monitors on returned factors vs eigh oracle",
    "C06": "runtime monitoring: posterior inverse/factor identities vs dense oracle",
    "C07": "runtime monitoring: linear-map and moment monitors on drawn samples",
    "C08": "runtime monitoring: predictive outputs vs dense Gaussian oracle",
    "C09": "runtime monitoring: predictive statistics vs recorded weight ensemble",
    "C10": "runtime monitoring: validity invariants and reference formulas on predictives",
    "C11": "runtime monitoring: evidence value vs dense reference formula",
    "C12": "runtime monitoring: event log of objective calls vs executable search model",
    "C13": "runtime monitoring: recorded objective evaluations vs reference metric of the predictive",
    "C14": "runtime monitoring: metric values vs numpy reference definitions",
    "C15": "runtime monitoring: per-example event log, exactly-once/ordering checker",
    "C16": "runtime monitoring: event log of loader/transform/function calls, exactly-once checker",
    "C17": "runtime monitoring: algebraic laws on pytrees vs numpy on flattened vectors",
    "C18": "runtime monitoring: configuration/argument snapshots, fault injection, thread stress",
    "C19": "runtime monitoring: call log of registered functions over random histories",
    "C20": "runtime monitoring: differential execution modes (eager/jit/vmap/precision/grad)",
    "C21": "runtime monitoring: kernel values vs dense oracle, symmetry and PSD monitors",
    "C22": "runtime monitoring: fault injection of invalid requests, exception oracle",
}
NOTE = ("Held on every execution generated by the seed; counts of cases and monitor observations "
        "are in the evidence. Trusts jax/numpy/scipy on CPU and the independent oracle in props/.")


def main():
    props = [json.loads(x) for x in (HERE / "properties.jsonl").read_text().splitlines()]
    checks, na = [], []
    for p in props:
        f = HERE / "props" / f"{p['id'].lower()}.py"
        if f.exists():
            names = {getattr(t, "id", "") for n in ast.parse(f.read_text()).body
                     if isinstance(n, ast.Assign) for t in n.targets}
            assert {"FAMILIES", "REQUIRED", "RULE"} <= names, f
            cmd = f"/opt/venv/bin/python check.py {p['id']} --tier "
            checks.append({"property": p["id"], "quick_cmd": cmd + "quick",
                           "thorough_cmd": cmd + "thorough", "technique": TECH[p["id"]],
                           "level": "exploration", "level_note": NOTE})
        else:
            na.append({"property": p["id"], "reason": "check not built yet"})
    (HERE / "MANIFEST.json").write_text(json.dumps({
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python -c 'import jax, laplax; print(jax.__version__)'",
        "checks": checks, "not_applicable": na,
        "notes": "No hooks in /repo: monitors sit at the client boundary (user-supplied model, "
                 "loss, loader, objective and metric callables) and on returned values. "
                 "/repo has only fix: commits, listed in KNOWN_FINDINGS.txt.",
    }, indent=1) + "\n")


if __name__ == "__main__":
    main()
