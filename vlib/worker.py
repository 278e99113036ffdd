"""One worker process: runs its share of the cases and writes one JSON line per case."""

import json
import os
import sys
import time
import traceback


def setup_env(x64):
    os.environ["JAX_PLATFORMS"] = "cpu"
    os.environ["JAX_ENABLE_X64"] = "1" if x64 else "0"
    os.environ["WANDB_MODE"] = "offline"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.environ.setdefault("OMP_NUM_THREADS", "1")
    os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
    os.environ["XLA_FLAGS"] = (
        "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1"
    )
    sys.dont_write_bytecode = True


REPO = os.environ.get("VERIF_REPO", "/repo")


class Reach:
    """Which lines of the library ran (evidence only, never a verdict)."""

    def __init__(self):
        self.lines = set()
        self.root = os.path.join(os.path.realpath(REPO), "laplax") + os.sep

    def start(self):
        mon = sys.monitoring
        try:
            mon.use_tool_id(mon.COVERAGE_ID, "verif")
        except ValueError:
            return
        root, lines = self.root, self.lines

        def on_line(code, line):
            if code.co_filename.startswith(root):
                lines.add((code.co_filename[len(root):], line))
            return mon.DISABLE

        mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, on_line)
        mon.set_events(mon.COVERAGE_ID, mon.events.LINE)

    def export(self):
        out = {}
        for f, ln in self.lines:
            out.setdefault(f, []).append(ln)
        return {f: sorted(v) for f, v in out.items()}


def load(prop):
    import importlib

    return importlib.import_module(f"props.{prop.lower()}")


def run_case(mod, prop, tier, seed, index, family, x64):
    from vlib.core import CaseViolation, Ctx, Inconclusive

    ctx = Ctx(prop, tier, seed, index, family, x64)
    status, note = "held", None
    t0 = time.perf_counter()
    try:
        getattr(mod, "family_" + family)(ctx)
    except CaseViolation:
        pass
    except Inconclusive as e:
        status, note = "inconclusive", f"{type(e).__name__}: {e}"
    except (MemoryError, OSError) as e:
        status, note = "inconclusive", f"{type(e).__name__}: {e}"
    except Exception as e:  # noqa: BLE001
        # On the unchanged tree no case raises; a result the harness cannot even
        # read (wrong type, structure, missing entry) is a witness of a violation.
        ctx._seen("result-readable")
        ctx.fail("result-readable", error=f"{type(e).__name__}: {e}",
                 tb="".join(traceback.format_exception(e))[-2500:])
    if ctx.violations:
        status = "violated"
    elif status == "held" and not ctx.monitors:
        status, note = "inconclusive", "no monitor was reached"
    return {
        "index": index, "family": family, "x64": x64, "status": status, "note": note,
        "descr": ctx.descr, "monitors": ctx.monitors, "events": ctx.events,
        "violations": ctx.violations[:6], "sig": ctx.signature(),
        "t": round(time.perf_counter() - t0, 4),
    }


def prepare():
    from loguru import logger

    logger.remove()
    import warnings

    warnings.simplefilter("ignore")
    # Progress bars are noise.
    import tqdm

    tqdm.tqdm.monitor_interval = 0
    import laplax

    real = os.path.realpath(os.path.dirname(laplax.__file__))
    want = os.path.realpath(os.path.join(REPO, "laplax"))
    if real != want:
        raise SystemExit(f"laplax comes from {real}, not {want}")


def main():
    cfg = json.loads(sys.argv[1])
    setup_env(cfg["x64"])
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    sys.path.insert(0, REPO)
    out = open(cfg["out"], "w", buffering=1)  # noqa: SIM115
    reach = Reach()
    reach.start()
    try:
        prepare()
        mod = load(cfg["prop"])
    except BaseException as e:  # noqa: BLE001
        tb = "".join(traceback.format_exception(e))[-3000:]
        out.write(json.dumps({"import_error": f"{type(e).__name__}: {e}", "tb": tb,
                              "in_repo": (reach.root in tb)}) + "\n")
        out.close()
        return
    import jax

    t_start = time.time()
    done = 0
    for index, family in cfg["cases"]:
        if time.time() - t_start > cfg["deadline"]:
            out.write(json.dumps({"deadline": True, "left": len(cfg["cases"]) - done}) + "\n")
            break
        rec = run_case(mod, cfg["prop"], cfg["tier"], cfg["seed"], index, family, cfg["x64"])
        out.write(json.dumps(rec, default=str) + "\n")
        done += 1
        if done % 120 == 0:
            jax.clear_caches()
    out.write(json.dumps({"reach": reach.export(), "done": done}) + "\n")
    out.close()


if __name__ == "__main__":
    main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(0)
