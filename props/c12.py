"""C12: event log of the prior-precision search against its specification."""

import jax.numpy as jnp
import numpy as np

from laplax.eval.calibrate import grid_search, optimize_prior_prec
from vlib import common
from vlib.core import to_np

RULE = ("searches with distinct (family, precision, grid, objective history incl. NaN, ties, "
        "errors, patience, limit) whose event log was checked")
FAMILIES = {
    "grid": (400, 9000),
    "log": (120, 2500),
    "errors": (60, 1200),
    "jitted": (30, 500),
}
REQUIRED = ["each-once-in-order", "stop-rule", "best-first", "argument", "propagates",
            "log-grid", "grid-size", "grid-untouched", "limit"]


class Boom(Exception):
    pass


class Log:
    """The objective: plays a script and records what it was asked."""

    def __init__(self, ctx, script, kinds, mutate=False):
        self.ctx, self.script, self.kinds, self.mutate = ctx, script, kinds, mutate
        self.seen, self.keys = [], []

    def __call__(self, prior_arguments):
        i = len(self.seen)
        self.seen.append(float(np.asarray(prior_arguments["prior_prec"])))
        self.keys.append(sorted(prior_arguments))
        self.ctx.event()
        if self.mutate:
            prior_arguments["prior_prec"] = -1.0
        v = self.script[i % len(self.script)]
        if isinstance(v, Exception):
            raise v
        k = self.kinds[i % len(self.kinds)]
        return {"py": float, "np": np.float64, "np32": np.float32,
                "jnp": lambda z: jnp.asarray(z)}[k](v)


def spec(values, patience, limit):
    """(number of evaluations, index of the result) for a history."""
    v = [np.inf if isinstance(x, ValueError) or np.isnan(x) else float(x) for x in values]
    n, up = 0, 0
    for i in range(len(v)):
        n = i + 1
        if patience is not None and i:
            up = up + 1 if v[i] > v[i - 1] else 0
            if up >= patience:
                break
        if limit is not None and n >= limit:
            break
    return n, int(np.argmin(v[:n]))


def history(ctx, n):
    """Objective values: smooth, rough, tied, with NaN, infinities and rejections."""
    kind = ctx.choice("bowl", "rough", "ties", "rising", "falling", "saw", "constant")
    x = np.linspace(-1, 1, n)
    r = ctx.rng
    v = {"bowl": (x - r.uniform(-1, 1)) ** 2, "rough": r.normal(size=n),
         "ties": r.integers(0, 3, size=n).astype(float), "rising": x + 2.0,
         "falling": -x, "saw": (np.arange(n) % 3) * 1.0 - 0.1 * np.arange(n),
         "constant": np.ones(n)}[kind]
    v = [float(np.float32(z)) * ctx.choice(1, 1, 1e6, 1e-6) for z in v] if kind != "ties" \
        else [float(z) for z in v]
    v = [float(np.float32(z)) for z in v]
    bad = ctx.choice("none", "none", "some", "many", "first", "all")
    for i in range(n):
        p = {"none": 0, "some": 0.15, "many": 0.6, "first": 1.0 * (i < 2), "all": 1}[bad]
        if ctx.flip(p) if p else False:
            v[i] = [np.nan, np.inf, ValueError("rejected"), np.nan,
                    -np.inf if bad != "all" and ctx.flip(0.2) else np.nan][ctx.int(0, 4)]
    ctx.desc(history=kind, bad=bad)
    return v


def judge(ctx, log, grid, script, patience, limit, got):
    n, best = spec(script, patience, limit)
    grid = np.asarray(grid, float)
    ctx.true("each-once-in-order", log.seen == [float(g) for g in grid[:len(log.seen)]],
             seen=log.seen, grid=grid)
    ctx.true("argument", all(k == ["prior_prec"] for k in log.keys), keys=log.keys[:2])
    ctx.true("stop-rule", len(log.seen) == n, got=len(log.seen), want=n,
             script=[str(s) for s in script], patience=patience, limit=limit)
    if limit is not None:
        ctx.true("limit", len(log.seen) <= limit, got=len(log.seen), limit=limit)
    ctx.true("best-first", float(np.asarray(got)) == float(grid[best]), got=got,
             want=grid[best], script=[str(s) for s in script])


def options(ctx, n):
    kw = {}
    patience = limit = None
    if ctx.flip(0.6):
        patience = ctx.choice(1, 1, 2, 3, 5)
        kw["patience"] = patience
    if ctx.flip(0.4):
        limit = ctx.int(1, n + 2)
        kw["max_iterations"] = limit
    if patience is None and ctx.flip(0.2):
        kw["patience"] = None
    ctx.desc(patience=patience, limit=limit)
    return kw, patience, limit


def kinds(ctx):
    return [ctx.choice("py", "np", "jnp", "np32") for _ in range(4)]


def family_grid(ctx):
    n = ctx.choice(1, 2, 3, 5, 8, 8, 13, 13, 60)
    g = np.sort(ctx.rng.uniform(0.01, 100, size=n))
    order = ctx.choice("up", "down", "random", "dups")
    if order == "down":
        g = g[::-1].copy()
    elif order == "random":
        g = ctx.rng.permutation(g)
    elif order == "dups" and n > 2:
        g[1] = g[2]
    g = np.asarray(g, np.float32)
    form = ctx.choice("jnp", "np", "list", "jnp")
    grid = {"jnp": jnp.asarray(g), "np": g, "list": [float(x) for x in g]}[form]
    script = history(ctx, n)
    kw, patience, limit = options(ctx, n)
    ctx.desc(n=n, order=order, form=form)
    log = Log(ctx, script, kinds(ctx), mutate=ctx.flip(0.2))
    snap = common.snapshot(grid)
    got = ctx.call("grid_search", grid_search, grid, log, **kw)
    judge(ctx, log, g, script, patience, limit, got)
    ctx.true("grid-untouched", common.snapshot(grid) == snap)


def family_log(ctx):
    n = ctx.choice(1, 2, 3, 6, 20, 51, 200)
    lo = ctx.choice(-5.0, -3, -1.5, 0.0, 2)
    hi = lo + ctx.choice(0.5, 1, 4.0, 8)
    kw, patience, limit = options(ctx, n)
    if ctx.flip(0.1):
        n, lo, hi, rng = 300, -5.0, 6.0, {}
    else:
        rng = {"log_prior_prec_min": lo, "log_prior_prec_max": hi, "grid_size": n}
    script = history(ctx, n)
    ctx.desc(n=n, lo=lo, hi=hi)
    log = Log(ctx, script, kinds(ctx))
    got = ctx.call("optimize_prior_prec", optimize_prior_prec, objective=log, **rng, **kw)
    want = 10 ** np.linspace(lo, hi, n)
    seen = np.asarray(log.seen)
    ctx.rel("log-grid", seen, want[:len(seen)], tol=1e-10 if ctx.x64 else 2e-5)
    judge(ctx, log, log.seen + [np.nan] * (n - len(seen)), script, patience, limit, got)
    if patience is None and limit is None:
        ctx.true("grid-size", len(seen) == n, got=len(seen), want=n)


def family_errors(ctx):
    """Anything but a value error propagates at once."""
    n = ctx.choice(2, 4, 7)
    k = ctx.int(0, n - 1)
    exc = ctx.choice(Boom("x"), TypeError("t"), KeyError("k"), RuntimeError("r"),
                     ZeroDivisionError("z"), KeyboardInterrupt(), FloatingPointError("f"))
    script = [float(n - i) for i in range(n)]
    script[k] = exc
    ctx.desc(n=n, k=k, exc=type(exc).__name__)

    class L(Log):
        def __call__(self, a):
            i = len(self.seen)
            self.seen.append(float(np.asarray(a["prior_prec"])))
            if isinstance(self.script[i], BaseException):
                raise self.script[i]
            return self.script[i]
    log = L(ctx, script, ["py"])
    grid = jnp.asarray(np.linspace(1, 2, n).astype(np.float32))
    ctx._seen("propagates")
    try:
        r = grid_search(grid, log) if ctx.flip() else optimize_prior_prec(
            log, log_prior_prec_min=-1, log_prior_prec_max=1, grid_size=n)
        ctx.fail("propagates", reason="returned a value", value=r, exc=exc)
    except BaseException as e:  # noqa: BLE001
        if e is not exc:
            ctx.fail("propagates", got=repr(e), want=repr(exc))
    ctx.true("each-once-in-order", len(log.seen) == k + 1, got=len(log.seen), want=k + 1)


def family_jitted(ctx):
    """Compiled objectives, as calibration uses them."""
    import jax

    n = ctx.choice(3, 9, 17)
    c = float(np.float32(ctx.rng.uniform(-3, 3)))
    cut = ctx.choice(None, 0.5, -0.5)
    grid = []

    @jax.jit
    def inner(a):
        z = jnp.log10(a["prior_prec"])
        v = (z - c) ** 2
        return v if cut is None else jnp.where(z > c + cut, jnp.nan, v)

    def objective(a):
        grid.append(float(a["prior_prec"]))
        ctx.event()
        return inner(a)
    got = ctx.call("optimize_prior_prec", optimize_prior_prec, objective,
                   log_prior_prec_min=-3.0, log_prior_prec_max=3.0, grid_size=n)
    ctx.desc(n=n, c=c, cut=cut)
    want = 10 ** np.linspace(-3, 3, n)
    ctx.rel("log-grid", np.asarray(grid), want, tol=1e-10 if ctx.x64 else 2e-5)
    v = np.array([float(inner({"prior_prec": jnp.asarray(g)})) for g in grid])
    v[np.isnan(v)] = np.inf
    ctx.true("best-first", float(np.asarray(got)) == grid[int(np.argmin(v))], got=got, v=v)
    ctx.true("best-first", to_np(got).shape == ())
