"""C18: no call disturbs global settings, registries or the caller's objects."""

import contextlib
import copy
import queue
import sys
import threading

import jax
import jax.numpy as jnp
import numpy as np

import laplax.api as api
import laplax.curv.cov as cov
import laplax.eval.likelihood as lk
import laplax.eval.metrics as mt
import laplax.eval.pushforward as pf
import laplax.eval.utils as ev
import laplax.register as reg
from laplax.curv.ggn import create_ggn_mv
from laplax.curv.hessian import create_hessian_mv
from laplax.eval import calibrate as cal
from laplax.util import loader as ld
from laplax.util import mv as um
from vlib import common, gen, post
from vlib.core import to_np

RULE = ("histories, fault injections and thread schedules with distinct (family, precision, "
        "sequence of calls, fault site and position, thread count), with configuration, "
        "registries and arguments compared before, during and after")
FAMILIES = {
    "single": (84, 3000),
    "history": (14, 900),
    "faults": (42, 2000),
    "threads": (6, 350),
    "registry": (36, 1500),
}
REQUIRED = ["config", "config:other-thread", "config:update", "registries", "arguments",
            "repeatable", "after-fault", "after-mutation", "concurrent", "isolated-posteriors"]


class Boom(Exception):
    pass


# -- monitors -----------------------------------------------------------------
class Prober:
    """Another thread that reports the configuration it sees."""

    def __init__(self):
        self.q, self.thread = queue.Queue(), None

    def ask(self):
        if self.thread is None:
            self.thread = threading.Thread(target=self.run, daemon=True)
            self.thread.start()
        back = queue.Queue()
        self.q.put(back)
        return back.get(timeout=60)

    def run(self):
        while True:
            back = self.q.get()
            back.put((bool(jax.config.jax_enable_x64), str(jnp.asarray(1.5).dtype)))


class Sampler:
    """Polls the configuration from outside while calls run."""

    def __init__(self):
        self.seen, self.stop, self.n = set(), threading.Event(), 0

    def __enter__(self):
        self.t = threading.Thread(target=self.run, daemon=True)
        self.t.start()
        return self

    def run(self):
        while not self.stop.is_set():
            self.seen.add(bool(jax.config.jax_enable_x64))
            self.n += 1
            self.stop.wait(2e-4)

    def __exit__(self, *a):
        self.stop.set()
        self.t.join()


PROBER = Prober()
UPDATES = []


def hook_config():
    """Log every process-wide configuration change made through jax.config."""
    if getattr(jax.config, "_verif_hooked", False):
        return
    cls = type(jax.config)
    orig = cls.update

    def update(self, name, val):
        old = config_values().get(name, val)
        if old != val:
            UPDATES.append((name, old, val))
        return orig(self, name, val)
    cls.update = update
    cls._verif_hooked = True


def config_values():
    vals = getattr(jax.config, "values", None)
    out = dict(vals) if vals else {}
    out["jax_enable_x64"] = bool(jax.config.jax_enable_x64)
    return out


def config():
    c = {k: repr(v) for k, v in config_values().items()}
    c["dtype"] = str(jnp.asarray(1.5).dtype)
    c["np"] = repr(np.geterr())
    return c


def registries():
    out = {}
    for mod, names in ((cov, ("CURVATURE_METHODS", "CURVATURE_PRECISION_METHODS",
                              "CURVATURE_TO_POSTERIOR_STATE", "CURVATURE_STATE_TO_SCALE",
                              "CURVATURE_STATE_TO_COV")),
                       (lk, ("CURVATURE_MARGINAL_LOG_LIKELIHOOD",)),
                       (api, ("calibration_options", "EMPTY_DICT")),
                       (mt, ("DEFAULT_REGRESSION_METRICS", "DEFAULT_REGRESSION_METRICS_DICT"))):
        for n in names:
            r = getattr(mod, n, None)
            if isinstance(r, dict):
                out[n] = [(str(k), id(v)) for k, v in r.items()]
            elif isinstance(r, (list, tuple)):
                out[n] = [id(v) for v in r]
    return out


class Watch:
    """Compares configuration, registries and arguments around a block."""

    def __init__(self, ctx, args=()):
        self.ctx, self.args = ctx, args

    def __enter__(self):
        hook_config()
        self.c, self.r = config(), registries()
        self.a = common.snapshot(list(self.args))
        self.u = len(UPDATES)
        return self

    def __exit__(self, et, e, tb):
        ctx = self.ctx
        c = config()
        ctx.true("config", c == self.c,
                 changed=[(k, self.c.get(k), v) for k, v in c.items() if self.c.get(k) != v])
        ctx.true("config:update", UPDATES[self.u:] == [], updates=UPDATES[self.u:])
        r = registries()
        ctx.true("registries", r == self.r, changed=[k for k in r if r[k] != self.r.get(k)])
        ctx.true("arguments", common.snapshot(list(self.args)) == self.a)
        if c != self.c:  # do not spoil the following cases
            jax.config.update("jax_enable_x64", ctx.x64)
        return False


# -- a pool of public calls ----------------------------------------------------
class Recipe:
    """run(touch) makes the call; `touch(site)` is called inside every user callback."""

    def __init__(self, name, run, args):
        self.name, self.run, self.args = name, run, args


def nothing(site):
    del site


class World:
    """A small problem and a posterior, with everything handed over in mutable containers."""

    def __init__(self, ctx, cls=False):
        self.pr = gen.make_problem(
            ctx, ["cross_entropy" if cls else "mse"], n=ctx.choice(2, 4), onehot=False,
            small="fixed", smooth_only=True, kinds=["affine", "poly", "mlp"],
            in_shape=ctx.choice((1,), (2,)), out=(2,),
            styles=["dict", "list", "nested", "revdict"])
        self.m = self.pr.model
        dt = np.float64 if ctx.x64 else np.float32
        asnp = ctx.flip(0.4)  # the caller's own numpy buffers
        self.params = jax.tree.map(lambda a: np.array(a, dt), self.m.ps.tree_np) if asnp \
            else self.m.params
        self.X = np.array(self.pr.X, dt) if asnp else jnp.asarray(self.pr.X, dt)
        self.Y = np.array(self.pr.Y, None if cls else dt) if asnp else jnp.asarray(
            self.pr.Y, None if cls else dt)
        self.data = {"input": self.X, "target": self.Y}
        self.kind = ctx.choice(*post.KINDS)
        self.est, self.M = post.estimate(ctx, self.m.P, self.kind)
        self.prior = {"prior_prec": ctx.logunif(-1, 1)}
        if ctx.flip():
            self.prior["sigma_squared"] = 0.5
        ctx.desc(asnp=asnp, kind=self.kind)
        self.v = self.m.ps.to_tree(gen.rand_flat(ctx, self.m.P))
        self.key = ctx.key()
        self.loss = self.pr.loss.lib

    def model(self, touch):
        def model_fn(input, params):  # noqa: A002
            touch("model")
            return self.m.model_fn(input, params)
        return model_fn


def arrays(x):
    """Anything a call returned, as numpy leaves."""
    return [to_np(a) for a in jax.tree.leaves(x) if isinstance(
        a, (jax.Array, np.ndarray, np.generic, float, int))]


def r_ggn(ctx, w):
    def run(touch):
        mv = create_ggn_mv(w.model(touch), w.params, w.data, loss_fn=w.loss)
        return arrays(mv(w.v))
    return Recipe("create_ggn_mv", run, [w.params, w.data, w.v])


def r_hessian(ctx, w):
    def run(touch):
        mv = create_hessian_mv(w.model(touch), w.params, w.data, loss_fn=w.loss)
        return arrays(mv(w.v))
    return Recipe("create_hessian_mv", run, [w.params, w.data, w.v])


def r_stream(ctx, w):
    bs = [{"input": w.X[:1], "target": w.Y[:1]}, {"input": w.X[1:], "target": w.Y[1:]}]

    class Loader:
        def __iter__(self):
            for b in bs:
                touch_now[0]("loader")
                yield b
    touch_now = [nothing]
    loader = Loader()

    def run(touch):
        touch_now[0] = touch
        mv = api.GGN(w.model(touch), w.params, loader, w.loss, verbose_logging=False)
        return arrays(mv(w.v)) + arrays(um.diagonal(mv, w.params))
    return Recipe("GGN", run, [w.params, bs, w.v])


def r_laplace(ctx, w):
    kind = ctx.choice("full", "diagonal", "lanczos")
    kw = {"rank": 2, "key": w.key} if kind == "lanczos" else {}

    def run(touch):
        fn, est = api.laplace(w.model(touch), w.params, w.data, loss_fn=w.loss, curv_type=kind,
                              **kw)
        p = fn(w.prior)
        return arrays(est) + arrays(p.cov_mv(p.state)(w.v)) + arrays(p.scale_mv(p.state)(
            w.v))
    return Recipe("laplace:" + kind, run, [w.params, w.data, w.prior, w.v])


def r_lowrank(ctx, w):
    n = 12
    A = gen.psd(ctx, n, n)
    which = ctx.choice("lanczos", "lobpcg")
    # in either working precision, whatever the ambient one
    kw = {"rank": 2 if which == "lobpcg" else 4, "key": w.key}
    dt = ctx.choice(None, "float64", "float32")
    if dt:
        kw["calc_dtype"] = getattr(jnp, dt)
    if ctx.flip(0.4):
        kw["mv_jit"] = False
    Aj = np.asarray(A, np.float64 if ctx.x64 else np.float32)

    def run(touch):
        def mv(v):
            touch("mv")
            return jnp.asarray(Aj, v.dtype) @ v
        e = cov.estimate_curvature(which, mv, layout=n, **kw)
        return [to_np(e.S), to_np((e.U * e.S) @ e.U.T),
                np.array([str(e.U.dtype) == ("float64" if ctx.x64 else "float32")], float)]
    return Recipe(f"estimate:{which}:{dt}", run, [kw, Aj])


def posterior(w):
    return cov.set_posterior_fn(w.kind, w.est, layout=w.params)


def r_pushforward(ctx, w):
    lin = ctx.flip()
    lists = ([[pf.lin_setup, pf.lin_pred_mean, pf.lin_pred_var, pf.lin_pred_std, pf.lin_pred_cov],
              [pf.lin_setup, pf.lin_pred_mean, pf.lin_samples],
              [pf.lin_pred_mean, pf.lin_setup, pf.lin_pred_cov]] if lin else
             [[pf.nonlin_setup, pf.nonlin_pred_mean, pf.nonlin_pred_std],
              [pf.nonlin_setup, pf.nonlin_samples, pf.nonlin_pred_mean]])
    mine = list(ctx.choice(*lists))
    short = [pf.lin_pred_mean] if lin else [pf.nonlin_setup, pf.nonlin_pred_mean]
    ctx.desc(fns=[f.__name__ for f in mine])
    opts = {"num_samples": 3} if not lin or pf.lin_samples in mine else {}
    make = pf.set_lin_pushforward if lin else pf.set_nonlin_pushforward

    def run(touch):
        def extra(results, aux, **kwargs):
            touch("pushforward_fn")
            results["twice"] = 2 * results["pred_mean"]
            # what an earlier call left behind would show here
            for d in (results, aux):
                d["marks"] = d.get("marks", 0) + np.float32(1)
            results["left"] = aux["marks"]
            return results, aux
        mine.append(extra)
        try:
            out = []
            for fns in (mine, short):
                p = make(model_fn=w.model(touch), mean_params=w.params, prior_arguments=w.prior,
                         posterior_fn=posterior(w), pushforward_fns=fns, key=w.key, **opts)
                out += [p(w.X[0]), p(w.X[1])]
                if fns is mine:
                    first, again = out[-2], p(w.X[0])
                    for k, a in again.items():
                        if not np.array_equal(np.asarray(a), np.asarray(first[k]),
                                              equal_nan=True):
                            msg = f"{k} differs when the predictive is called again"
                            raise AssertionError(msg)
            return [np.asarray(a) for r in out for k, a in sorted(r.items())
                    if hasattr(a, "shape")]
        finally:
            mine.remove(extra)
    return Recipe("pushforward", run, [w.params, w.prior, mine, short, w.est, w.X])


def caller_fns(ctx):
    """The caller's own list of pushforward functions, with a predictive type beside it."""
    kind = ctx.choice("none", "linear", "linear", "nonlinear")
    ctx.desc(fns=kind)
    if kind == "none":
        return {}
    if kind == "linear":
        return {"pushforward_type": "linear",
                "pushforward_fns": [pf.lin_setup, pf.lin_pred_mean, pf.lin_pred_std],
                "predictive_type": ctx.choice("none", "mc_bridge", "mean_field_0")}
    return {"pushforward_type": "nonlinear", "num_samples": 3,
            "pushforward_fns": [pf.nonlin_setup, pf.nonlin_pred_mean, pf.nonlin_pred_std],
            "predictive_type": ctx.choice("none", "mc_bridge")}


def r_evaluation(ctx, w):
    opts = caller_fns(ctx)
    form = ctx.choice("dict", "tuple", "list", "loader")
    default = ctx.flip()
    bs = {"dict": w.data, "tuple": (w.X, w.Y), "list": [w.X, w.Y],
          "loader": [(w.X[:1], w.Y[:1]), (w.X[1:], w.Y[1:])]}[form]
    metrics = [ev.apply_fns(mt.estimate_rmse, names=["rmse"], pred_mean="pred_mean",
                            target="target")]

    def run(touch):
        def red(x):
            touch("reduce")
            return jnp.sum(x)

        def gen_():
            for b in bs:
                touch("loader")
                yield b

        def own(results, aux, **kw):
            touch("metric")
            results["own"] = aux["pred_mean"].sum()
            return results, aux
        ms = "regression" if default else metrics
        if not default:
            metrics.append(own)
        try:
            res, pred = api.evaluation(
                posterior(w), w.model(touch), w.params, w.prior,
                gen_() if form == "loader" else bs, metrics=ms, reduce=red, **opts)
        finally:
            if not default:
                metrics.pop()
        return arrays(dict(sorted(res.items())))
    return Recipe("evaluation:" + form, run, [w.params, w.prior, bs, metrics, w.est, opts])


def r_metrics(ctx, w):
    md = {"rmse": mt.estimate_rmse, "chi": mt.chi_squared}
    ml = [ev.apply_fns(mt.estimate_rmse, names=["m"], pred_mean="pred_mean", target="target")]
    aux = {"kept": 1.0}
    bs = [w.data]

    def run(touch):
        def pred(input):  # noqa: A002
            touch("pred")
            z = w.m.model_fn(input, w.params)
            return {"pred_mean": z, "pred_std": 1 + z ** 2}

        def gen_():
            for b in bs:
                touch("loader")
                yield b
        a = ev.evaluate_metrics_on_dataset(pred, w.data, metrics=ml, metrics_dict=md)
        b = ev.evaluate_metrics_on_generator(pred, gen_(), metrics=ml, metrics_dict=md)
        c = ev.evaluate_on_dataset(pred, w.data)
        return arrays([a, b, c])
    return Recipe("evaluate_metrics", run, [w.data, md, ml, aux, w.params])


def r_calibration(ctx, w):
    kw = {"log_prior_prec_min": -1.0, "log_prior_prec_max": 1.0, "grid_size": 3}
    obj = ctx.choice("nll", "marginal_log_likelihood")
    opts = caller_fns(ctx)

    def run(touch):
        args, make = api.calibration(
            posterior(w), w.model(touch), w.params, w.data, loss_fn=w.loss, curv_estimate=w.est,
            curv_type=w.kind, calibration_objective=obj, **kw, **opts)
        return arrays(args)
    return Recipe("calibration:" + obj, run, [w.params, w.data, w.est, kw, opts])


def r_evidence(ctx, w):
    def run(touch):
        return arrays(lk.marginal_log_likelihood(
            w.est, w.prior, w.data, w.model(touch), w.params, w.loss, w.kind,
            vmap_over_data=True))
    return Recipe("marginal_log_likelihood", run, [w.est, w.prior, w.data, w.params])


def r_kernel(ctx, w):
    def run(touch):
        k, _ = pf.set_posterior_gp_kernel(
            w.model(touch), w.params, posterior(w), w.prior, dense=True, output_layout=2)
        return arrays(k(w.X[0], w.X[1]))
    return Recipe("set_posterior_gp_kernel", run, [w.params, w.prior, w.est, w.X])


def r_batches(ctx, w):
    items = [(w.X[:1], w.Y[:1]), (w.X[1:], w.Y[1:])]
    red = ctx.choice(ld.reduce_online_mean, ld.reduce_concat, ld.reduce_sum)

    def run(touch):
        def f(data, scale=1.0):
            touch("function")
            return {"a": scale * jnp.asarray(data["input"]), "b": data["target"] * 2}

        def tr(b):
            touch("transform")
            return ld.input_target_split(b)
        return arrays(ld.process_batches(f, items, tr, red, scale=2.0))
    return Recipe("process_batches", run, [items])


def r_search(ctx, w):
    kw = {"log_prior_prec_min": -1.0, "log_prior_prec_max": 1.0, "grid_size": 5}
    c = float(gen.f32(ctx.rng.normal()))

    def run(touch):
        def objective(a):
            touch("objective")
            return (jnp.log(a["prior_prec"]) - c) ** 2
        return arrays(cal.optimize_prior_prec(objective, **kw))
    return Recipe("optimize_prior_prec", run, [kw])


def r_plain(ctx, w):
    p = {"pred_mean": np.asarray(w.X, np.float32), "pred_std": 1 + np.abs(w.X),
         "target": np.asarray(w.X) + 1}
    prob = gen.np_softmax(np.asarray(w.X, float)).astype(np.float32)
    y = np.zeros(len(prob), int)

    def run(touch):
        out = [f(**p) for f in (mt.estimate_rmse, mt.chi_squared, mt.nll_gaussian)]
        out.append(mt.expected_calibration_error(
            confidence=prob.max(-1), correctness=(prob.argmax(-1) == y) * 1.0, num_bins=4))
        out.append(mt.accuracy(prob, y))
        return arrays(out)
    return Recipe("metrics", run, [p, prob, y])


POOL = [r_ggn, r_hessian, r_stream, r_laplace, r_lowrank, r_lowrank, r_pushforward,
        r_evaluation, r_metrics, r_calibration, r_evidence, r_kernel, r_batches, r_search,
        r_plain]


def rejected(ctx, w):
    """Invalid requests, made only to see what they leave behind."""
    mf = w.m.model_fn
    return ctx.choice(
        lambda: api.laplace(mf, w.params, w.data, loss_fn=w.loss, curv_type="nope"),
        lambda: api.laplace(mf, w.params, {"input": w.X}, loss_fn=w.loss, curv_type="full"),
        lambda: api.evaluation(posterior(w), mf, w.params, w.prior, w.data, metrics="nope"),
        lambda: api.evaluation(posterior(w), mf, w.params, w.prior, w.data, metrics=[]),
        lambda: api.evaluation(posterior(w), mf, w.params, {}, w.data),
        lambda: api.calibration(posterior(w), mf, w.params, w.data, loss_fn=w.loss,
                                curv_estimate=w.est, curv_type=w.kind,
                                calibration_method="nope"),
        lambda: ld.process_batches(lambda data: data, [], lambda b: b, ld.reduce_add),
        lambda: reg.register_curvature_method("verif_incomplete",
                                              create_curvature_fn=lambda *a, **k: 0),
        lambda: reg.register_curvature_method("verif_incomplete", default="nope",
                                              create_curvature_fn=lambda *a, **k: 0),
        lambda: create_ggn_mv(mf, w.params, w.data, loss_fn="nope")(w.v),
        lambda: cov.estimate_curvature("lanczos", lambda v: v, layout=None, rank=3, key=w.key),
        lambda: cov.estimate_curvature("lanczos", lambda v: v[:3], layout=12, rank=3, key=w.key),
        lambda: cov.estimate_curvature("lanczos", lambda v: 1 / 0, layout=12, rank=3, key=w.key),
        lambda: cov.estimate_curvature("lobpcg", lambda v: 1 / 0, layout=12, rank=2, key=w.key),
        lambda: cov.estimate_curvature("lobpcg", lambda v: v[:3], layout=12, rank=2, key=w.key),
        lambda: posterior(w)({}),
        lambda: cov.set_posterior_fn("full", w.est, layout="nope"),
        lambda: ev.evaluate_metrics_on_dataset(lambda input: {}, w.data),  # noqa: A006
        lambda: pf.set_posterior_gp_kernel(mf, w.params, posterior(w), w.prior, dense=True),
        lambda: um.to_dense(lambda v: v, layout=None),
    )


def probing(ctx, every=1):
    """A touch that looks at the configuration from inside user code and from another
    thread."""
    count = [0]

    def touch(site):
        count[0] += 1
        if count[0] <= 3 or count[0] % 7 == 0:
            seen = PROBER.ask()
            want = (ctx.x64, "float64" if ctx.x64 else "float32")
            ctx.true("config:other-thread", seen == want, seen=seen, want=want, site=site)
    return touch, count


def same(ctx, name, a, b, **info):
    ctx.true(name, len(a) == len(b), a=len(a), b=len(b), **info)
    for x, y in zip(a, b, strict=False):
        ctx.close(name, x, y, tol=1e-12 if ctx.x64 else 2e-6, floor=1e-30, **info)


def attempt(ctx, rec, touch=nothing):
    """Run a recipe on valid input, under watch."""
    with Watch(ctx, rec.args):
        return ctx.call(rec.name, rec.run, touch)


def family_single(ctx):
    """One call: nothing moves, seen from inside, from outside and afterwards."""
    w = World(ctx)
    rec = POOL[ctx.index % len(POOL)](ctx, w)
    ctx.desc(call=rec.name)
    touch, count = probing(ctx)
    with Sampler() as s:
        first = attempt(ctx, rec, touch)
    ctx.true("config:other-thread", s.seen <= {ctx.x64}, seen=s.seen, samples=s.n)
    second = attempt(ctx, rec)
    same(ctx, "repeatable", second, first, call=rec.name)


def family_history(ctx):
    """A call gives the same answer whatever came before it."""
    w = World(ctx)
    recs = [ctx.choice(*POOL)(ctx, w) for _ in range(3)]
    names = [r.name for r in recs]
    ref = [attempt(ctx, r) for r in recs]
    steps = []
    for _ in range(ctx.int(2, 4)):
        what = ctx.choice("again", "again", "reject", "mutate", "other")
        steps.append(what)
        if what == "again":
            k = ctx.int(0, 2)
            same(ctx, "repeatable", attempt(ctx, recs[k]), ref[k], call=names[k], steps=steps)
        elif what == "reject":
            bad = rejected(ctx, w)
            with Watch(ctx, [w.params, w.data, w.prior, w.est]), contextlib.suppress(Exception):
                bad()
        elif what == "other":
            attempt(ctx, ctx.choice(*POOL)(ctx, World(ctx)))
        else:  # the caller changes its own objects, then calls again, then changes back
            keep = dict(w.prior)
            w.prior["prior_prec"] = keep["prior_prec"] * 4
            changed = [attempt(ctx, r) for r in recs]
            w2 = copy.copy(w)
            w2.prior = dict(w.prior)
            w.prior.clear()
            w.prior.update(keep)
            prior = w.prior
            w.prior = w2.prior  # an equal dictionary that was never used before
            for k, r in enumerate(recs):
                same(ctx, "after-mutation", attempt(ctx, r), changed[k], call=names[k])
            w.prior = prior
    for k in range(3):
        same(ctx, "repeatable", attempt(ctx, recs[k]), ref[k], call=names[k], steps=steps)
    ctx.desc(calls=names, steps=steps)
    # posteriors made from one factory do not influence each other
    fn = posterior(w)
    p1 = ctx.call("posterior", fn, {"prior_prec": 0.5})
    a = arrays(p1.cov_mv(p1.state)(w.v))
    p2 = ctx.call("posterior", fn, {"prior_prec": 50.0})
    b = arrays(p2.cov_mv(p2.state)(w.v))
    same(ctx, "isolated-posteriors", arrays(p1.cov_mv(p1.state)(w.v)), a)
    same(ctx, "isolated-posteriors", arrays(p2.cov_mv(p2.state)(w.v)), b)
    p3 = fn({"prior_prec": 0.5})
    same(ctx, "isolated-posteriors", arrays(p3.cov_mv(p3.state)(w.v)), a)


def family_faults(ctx):
    """User code raises at some call; afterwards nothing has changed."""
    w = World(ctx)
    pool = [p for p in POOL if p is not r_plain]
    rec = pool[(ctx.index * 7) % len(pool)](ctx, w)
    sites = []
    ref = attempt(ctx, rec, sites.append)
    if not sites:
        ctx.desc(call=rec.name, sites=0)
        return
    for _ in range(2):
        at = ctx.choice(0, len(sites) - 1, ctx.int(0, len(sites) - 1))
        count = [0]

        def touch(site):
            count[0] += 1
            if count[0] - 1 == at:  # noqa: B023
                raise Boom(site)
        ctx.desc(call=rec.name, at=at, site=sites[at], total=len(sites))
        with Sampler() as s, Watch(ctx, rec.args), contextlib.suppress(Exception):
            rec.run(touch)
        ctx.true("config:other-thread", s.seen <= {ctx.x64}, seen=s.seen)
    same(ctx, "after-fault", attempt(ctx, rec), ref, call=rec.name)


def family_threads(ctx):
    """Concurrent calls equal sequential ones."""
    worlds = [World(ctx) for _ in range(2)]
    n = ctx.int(3, 5)
    recs = [(r_lowrank if i == 0 else ctx.choice(*POOL))(ctx, worlds[i % 2]) for i in range(n)]
    names = [r.name for r in recs]
    ctx.desc(calls=names)
    ref = [attempt(ctx, r) for r in recs]
    keep = sys.getswitchinterval()
    rounds = 2
    out = [[None] * rounds for _ in recs]
    # mutable recipe-local containers belong to one call at a time
    barrier = threading.Barrier(n)

    def worker(i):
        for k in range(rounds):
            try:
                barrier.wait(timeout=300)
                out[i][k] = recs[i].run(nothing)
            except Exception as e:  # noqa: BLE001
                out[i][k] = e
    sys.setswitchinterval(1e-5)
    try:
        with Sampler() as s, Watch(ctx, [a for r in recs for a in r.args]):
            ts = [threading.Thread(target=worker, args=(i,)) for i in range(n)]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
    finally:
        sys.setswitchinterval(keep)
    ctx.event(n * rounds)
    ctx.true("config:other-thread", s.seen <= {ctx.x64}, seen=s.seen)
    for i in range(n):
        for k in range(rounds):
            o = out[i][k]
            if ctx.true("concurrent", isinstance(o, list), error=repr(o), call=names[i],
                        calls=names):
                same(ctx, "concurrent", o, ref[i], call=names[i], calls=names)


def family_registry(ctx):
    """Rejected calls leave nothing behind."""
    w = World(ctx)
    for _ in range(2):
        bad = rejected(ctx, w)
        with Sampler() as s, Watch(ctx, [w.params, w.data, w.prior, w.est]), \
                contextlib.suppress(Exception):
            ctx.event()
            bad()
        ctx.true("config:other-thread", s.seen <= {ctx.x64}, seen=s.seen)
    rec = ctx.choice(r_lowrank, r_evidence, r_ggn)(ctx, w)
    a = attempt(ctx, rec)
    with Watch(ctx, []), contextlib.suppress(Exception):
        rejected(ctx, w)()
    same(ctx, "repeatable", attempt(ctx, rec), a, call=rec.name)
