"""C22: invalid requests are rejected; letter case and enum spelling do not matter."""

import jax
import jax.numpy as jnp
import numpy as np

import laplax.api as api
import laplax.curv.cov as cov
import laplax.eval.likelihood as lk
import laplax.eval.metrics as mt
import laplax.eval.pushforward as pf
import laplax.eval.utils as ev
import laplax.register as reg
from laplax import enums
from laplax.curv import ggn, hessian
from laplax.curv import utils as cu
from laplax.curv.lanczos import lanczos_lowrank
from laplax.util import loader as ld
from laplax.util import mv as um
from laplax.util import ops
from vlib import common, gen, post
from vlib.core import to_np
from vlib.gen import dev

RULE = ("distinct (family, precision, kind of invalid request, malformed value, surrounding "
        "options) that had to raise, and spellings of valid requests that had to agree")
FAMILIES = {
    "losses": (20, 900),
    "names": (20, 900),
    "combinations": (24, 900),
    "batches": (24, 900),
    "metrics": (24, 900),
    "shapes": (40, 700),
    "missing": (28, 900),
    "spelling": (36, 900),
}
REQUIRED = ["loss:none", "loss:both", "loss:unknown", "name:curvature", "name:predictive",
            "name:pushforward", "name:objective", "name:method", "name:metrics",
            "combination:chi2", "combination:ece", "combination:closed-form",
            "batch:malformed", "batch:in-loader", "loader:empty", "metrics:missing",
            "metrics:empty", "metrics:not-callable", "metrics:names", "shape:metric",
            "missing:layout", "missing:key", "missing:functions", "shape:mv",
            "spelling:laplace", "spelling:calibration", "spelling:evaluation"]
JUNK = ["", "nope", "ful", "full ", " mse", "fulll", "grid search", "mean_field_3", "mc-bridge",
        "linearr", "non_linear", "none_", "0", "regressions", "cross entropy", "L2"]


class Fit:
    """A fitted posterior over a small model, and everything needed to ask for more."""

    def __init__(self, ctx, classes=False):
        self.pr = gen.make_problem(
            ctx, ["cross_entropy"] if classes else ["mse"], small=True, out="vec", n=3,
            onehot=False if classes else None)
        pr = self.pr
        self.kind = ctx.choice("full", "diagonal")
        M = gen.psd(ctx, pr.P, pr.P)
        self.est = dev(M if self.kind == "full" else np.diag(M))
        self.fn = cov.set_posterior_fn(self.kind, self.est, layout=pr.params)
        self.loss = pr.loss.lib
        self.args = {"prior_prec": ctx.logunif(-1, 1)}
        self.key = ctx.key()

    def calibration(self, **kw):
        data = kw.pop("data", self.pr.data)
        ctype = kw.pop("curv_type", self.kind)
        kw.setdefault("grid_size", 2)
        return api.calibration(self.fn, self.pr.model_fn, self.pr.params, data,
                               loss_fn=self.loss, curv_estimate=self.est, curv_type=ctype,
                               num_samples=4, sample_key=self.key, **kw)

    def evaluation(self, **kw):
        data = kw.pop("data", self.pr.data)
        return api.evaluation(self.fn, self.pr.model_fn, self.pr.params, self.args, data,
                              num_samples=4, sample_key=self.key, **kw)


def junk(ctx, *valid):
    """A name that is no spelling of a valid one."""
    ok = {str(v).lower() for v in valid}
    while True:
        j = ctx.choice(*JUNK, ctx.choice(*map(str, valid)) + ctx.choice("x", "_", "1"))
        if j.lower() not in ok:
            return j


ANY = (Exception,)


def family_losses(ctx):
    pr = gen.make_problem(ctx, ["mse"], small=True, n=2)
    hess = ggn.create_loss_hessian_mv("mse")
    j = junk(ctx, *enums.LossFn)
    bad = ctx.choice(j, j, 3, 1.5)
    ctx.desc(bad=bad)
    args = (pr.model_fn, pr.params, pr.data)
    ctx.raises("loss:none", lambda: ggn.create_ggn_mv(*args), ValueError)
    ctx.raises("loss:none", lambda: ggn.create_ggn_mv(*args, loss_fn=None, loss_hessian_mv=None),
               ValueError)
    ctx.raises("loss:none", lambda: ggn.create_ggn_mv_without_data(
        pr.model_fn, pr.params, None, 1.0), ValueError)
    ctx.raises("loss:none", lambda: ggn.create_loss_hessian_mv(None), ValueError)
    loss = ctx.choice("mse", enums.LossFn.MSE, enums.LossFn.NONE, "cross_entropy",
                      lambda p, t: jnp.sum((p - t) ** 2))
    ctx.raises("loss:both", lambda: ggn.create_ggn_mv(*args, loss_fn=loss,
                                                      loss_hessian_mv=hess), ValueError)
    ctx.raises("loss:both", lambda: ggn.create_ggn_mv(
        *args, loss, loss_hessian_mv=hess, num_curv_samples=2, num_total_samples=4), ValueError)
    ctx.raises("loss:unknown", lambda: ggn.create_ggn_mv(*args, loss_fn=bad), ValueError)
    ctx.raises("loss:unknown", lambda: ggn.create_loss_hessian_mv(bad), ValueError)
    ctx.raises("loss:unknown", lambda: cu.concatenate_model_and_loss_fn(
        pr.model_fn, bad, vmap_over_data=ctx.flip()), ValueError)
    ctx.raises("loss:unknown", lambda: hessian.create_hessian_mv(
        *args, loss_fn=bad)(pr.params), ValueError)
    ctx.raises("loss:unknown", lambda: api.GGN(*args, loss_fn=bad), ValueError)
    ctx.raises("loss:none", lambda: api.GGN(*args, loss_fn=None), ValueError)
    ctx.raises("loss:unknown", lambda: api.laplace(*args, loss_fn=bad, curv_type="full"),
               ValueError)
    est = dev(np.eye(pr.P))
    ctx.raises("loss:unknown", lambda: lk.marginal_log_likelihood(
        est, {"prior_prec": 1.0}, pr.data, pr.model_fn, pr.params, bad, "full",
        vmap_over_data=True), ValueError)


def family_names(ctx):
    f = Fit(ctx)
    pr = f.pr
    c = junk(ctx, *enums.CurvApprox)
    ctx.desc(curv=c)
    low = (KeyError, ValueError)  # the mapping's own error
    mv = gen.mv_from_dense(np.eye(pr.P), pr.model.ps)
    ctx.raises("name:curvature", lambda: api.laplace(
        pr.model_fn, pr.params, pr.data, loss_fn="mse", curv_type=c), ValueError)
    ctx.raises("name:curvature", lambda: cov.estimate_curvature(c, mv, pr.params), low)
    ctx.raises("name:curvature", lambda: cov.create_posterior_fn(c, mv, pr.params), low)
    ctx.raises("name:curvature", lambda: cov.set_posterior_fn(
        c, f.est, layout=pr.params)({"prior_prec": 1.0}), low)
    ctx.raises("name:curvature", lambda: lk.marginal_log_likelihood(
        f.est, f.args, pr.data, pr.model_fn, pr.params, "mse", c, vmap_over_data=True), low)
    p = junk(ctx, *enums.Predictive)
    ctx.desc(predictive=p)
    ctx.raises("name:predictive", lambda: f.calibration(predictive_type=p), ValueError)
    ctx.raises("name:predictive", lambda: f.evaluation(predictive_type=p), ValueError)
    ctx.raises("name:predictive", lambda: f.evaluation(
        predictive_type=p, pushforward_type="nonlinear"), ValueError)
    q = junk(ctx, *enums.Pushforward)
    ctx.desc(pushforward=q)
    ctx.raises("name:pushforward", lambda: f.calibration(pushforward_type=q), ValueError)
    ctx.raises("name:pushforward", lambda: f.evaluation(pushforward_type=q), ValueError)
    ctx.raises("name:pushforward", lambda: f.evaluation(
        pushforward_type=q, pushforward_fns=[pf.lin_setup]), ValueError)
    o = junk(ctx, *enums.CalibrationObjective)
    ctx.desc(objective=o)
    ctx.raises("name:objective", lambda: f.calibration(calibration_objective=o), ValueError)
    m = junk(ctx, *enums.CalibrationMethod)
    ctx.desc(method=m)
    ctx.raises("name:method", lambda: f.calibration(calibration_method=m), ValueError)
    s = junk(ctx, *enums.DefaultMetrics)
    ctx.desc(suite=s)
    ctx.raises("name:metrics", lambda: f.evaluation(metrics=s), ValueError)
    ctx.raises("name:objective", lambda: f.calibration(
        calibration_objective=o, calibration_method=m), ValueError)


def spelled(ctx, e):
    s = str(e)
    return ctx.choice(e, s, s.upper(), s.title(), s.capitalize())


CLOSED = [enums.Predictive.LAPLACE_BRIDGE, enums.Predictive.MEAN_FIELD_0,
          enums.Predictive.MEAN_FIELD_1, enums.Predictive.MEAN_FIELD_2]


def family_combinations(ctx):
    f = Fit(ctx, classes=True)
    P, O = enums.Predictive, enums.CalibrationObjective
    pred = ctx.choice(*[p for p in P if p is not P.NONE])
    ctx.desc(pred=str(pred))
    ctx.raises("combination:chi2", lambda: f.calibration(
        predictive_type=spelled(ctx, pred), calibration_objective=spelled(ctx, O.CHI_SQUARED)),
        ValueError)
    ctx.raises("combination:ece", lambda: f.calibration(
        predictive_type=spelled(ctx, P.NONE), calibration_objective=spelled(ctx, O.ECE)),
        ValueError)
    ctx.raises("combination:ece", lambda: f.calibration(
        calibration_objective=spelled(ctx, O.ECE), pushforward_type="nonlinear"), ValueError)
    for c in CLOSED:
        ctx.raises("combination:closed-form", lambda: f.evaluation(
            predictive_type=spelled(ctx, c),  # noqa: B023
            pushforward_type=spelled(ctx, enums.Pushforward.NONLINEAR),
            metrics="classification"), ValueError)
    c = ctx.choice(*CLOSED)
    ctx.raises("combination:closed-form", lambda: f.calibration(
        predictive_type=spelled(ctx, c),
        pushforward_type=spelled(ctx, enums.Pushforward.NONLINEAR),
        calibration_objective=ctx.choice("nll", "ece")), ValueError)
    # the evidence needs what it is the evidence of
    drop = ctx.choice("curv_estimate", "params", "model_fn", "curv_type")
    kw = dict(set_prob_predictive=None, curv_estimate=f.est, model_fn=f.pr.model_fn,
              params=f.pr.params, curv_type=f.kind, loss_fn="mse")
    kw[drop] = None
    build = getattr(api, "_build_calibration_objective", None)
    if build is not None:
        ctx.raises("combination:evidence", lambda: build("marginal_log_likelihood", **kw),
                   ValueError)


def malformed(ctx, pr):
    x, y = pr.data["input"], pr.data["target"]
    what = ctx.choice("len1", "len3", "len0", "no-target", "no-input", "empty-dict",
                      "other-keys", "array", "list3")
    ctx.desc(malformed=what)
    return {"len1": (x,), "len3": (x, y, y), "len0": (), "no-target": {"input": x},
            "no-input": {"target": y}, "empty-dict": {}, "other-keys": {"inputs": x, "targets": y},
            "array": x, "list3": [x, y, x]}[what], what


def empty(ctx):
    what = ctx.choice("generator", "recorder", "list-iterator")
    ctx.desc(empty=what)
    return {"generator": (b for b in ()), "recorder": common.Recorder([]),
            "list-iterator": iter([])}[what]


def family_batches(ctx):
    f = Fit(ctx)
    pr = f.pr
    bad, what = malformed(ctx, pr)
    ctx.raises("batch:malformed", lambda: f.calibration(data=bad), ValueError)
    loader_like = what == "array"
    ctx.raises("batch:malformed", lambda: f.evaluation(data=bad), ValueError)
    ctx.raises("batch:malformed", lambda: api.GGN(pr.model_fn, pr.params, bad, "mse"),
               ValueError)
    ctx.raises("batch:malformed", lambda: api.laplace(
        pr.model_fn, pr.params, bad, loss_fn="mse", curv_type="diagonal"), ValueError)
    for thing in (7, None, 1.5):
        ctx.raises("batch:malformed", lambda: f.calibration(data=thing), ValueError)  # noqa: B023
    if not loader_like:
        lo = common.Recorder([bad, (pr.data["input"], pr.data["target"])])
        ctx.raises("batch:in-loader", lambda: api.GGN(pr.model_fn, pr.params, lo, "mse"),
                   ValueError)
        ctx.raises("batch:in-loader", lambda: f.evaluation(data=common.Recorder([bad])),
                   ValueError)
    # empty loaders
    ctx.raises("loader:empty", lambda: ld.process_batches(
        lambda data: data["input"], empty(ctx), ld.input_target_split,
        ctx.choice(ld.reduce_add, ld.concat, ld.reduce_online_mean)), ValueError)
    mv = ggn.create_ggn_mv_without_data(pr.model_fn, pr.params, "mse", 1.0)
    v = pr.params
    ctx.raises("loader:empty", lambda: ld.DataLoaderMV(mv, common.Recorder([]))(v), ValueError)
    ctx.raises("loader:empty", lambda: ld.wrap_function_with_data_loader(
        mv, common.Recorder([]), reduce=ld.reduce_add)(v), ValueError)
    for ask in (lambda d: api.GGN(pr.model_fn, pr.params, d, "mse"),
                lambda d: api.laplace(pr.model_fn, pr.params, d, loss_fn="mse",
                                      curv_type="full"),
                lambda d: f.evaluation(data=d)):
        ctx.raises("loader:empty", lambda: ask(empty(ctx)), ANY)  # noqa: B023
    ctx.raises("loader:empty", lambda: ev.evaluate_metrics_on_generator(
        lambda x: {"pred_mean": x}, iter([]), metrics=None, metrics_dict=None), ValueError)


def family_metrics(ctx):
    f = Fit(ctx)
    pr = f.pr

    def pred(x):
        return {"pred_mean": pr.model_fn(x, pr.params)}
    kw = ctx.choice({}, {"metrics": None}, {"metrics": None, "metrics_dict": None})
    ctx.raises("metrics:missing", lambda: ev.evaluate_metrics_on_dataset(pred, pr.data, **kw),
               ValueError)
    ctx.raises("metrics:missing", lambda: ev.evaluate_metrics_on_generator(
        pred, iter([pr.data]), **kw), ValueError)
    for m in ([], ()):
        ctx.raises("metrics:empty", lambda: f.evaluation(metrics=m), ValueError)  # noqa: B023
    for m in (None, 3, {"a": mt.estimate_rmse}, 1.5):
        ctx.raises("metrics:missing", lambda: f.evaluation(metrics=m), ValueError)  # noqa: B023
    funcs = [mt.estimate_rmse, mt.nll_gaussian]
    thing = ctx.choice(3, "nll", None, [mt.estimate_rmse], {"a": 1}, np.zeros(2))
    funcs.insert(ctx.int(0, 2), thing)
    ctx.desc(thing=thing)
    ctx.raises("metrics:not-callable", lambda: ev.apply_fns(*funcs, names=["a", "b", "c"]),
               TypeError)
    # names that do not match the functions
    names = ctx.choice([], ["a"], ["a", "b", "c"])
    fn = ev.apply_fns(lambda **k: 0.0, lambda **k: 1.0, names=names, p="pred_mean")
    ctx.raises("metrics:names", lambda: fn({"pred_mean": jnp.ones(2)}, {}), ValueError)
    fn = ev.apply_fns(lambda **k: 0.0, names=["a"], p=ctx.choice("missing", "pred_mea", "Pred"))
    ctx.raises("metrics:names", lambda: fn({"pred_mean": jnp.ones(2)}, {"target": 1.0}),
               ValueError)
    field = ctx.choice("result", "AUX", "", "both")
    fn = ev.apply_fns(lambda **k: 0.0, names=["a"], field=field, p="pred_mean")
    ctx.raises("metrics:names", lambda: fn({"pred_mean": jnp.ones(2)}, {}), ValueError)
    where = ctx.choice({"field": field}, {"access_from": field},
                       {"field": field, "access_from": field})
    ctx.raises("metrics:names", lambda: ev.transfer_entry(
        ctx.choice(["a"], {"a": "b"}), **where), ValueError)
    good = ev.transfer_entry(["a"], field="aux", access_from="results")
    ctx.raises("metrics:names", lambda: good({"b": 1}, {}), KeyError, also=(ValueError,))


def family_shapes(ctx):
    """Metric arguments that cannot belong together."""
    n = ctx.int(2, 5)
    base, other = ctx.choice(*[((n, 2), o) for o in (
        (n + 1, 2), (n, 3), (n,), (1, 2), (n, 1), (2 * n,), (n, 2, 1), ())],
        # as many entries, and they would broadcast
        *[((n, 1), o) for o in ((n,), (1, n))], *[((n,), o) for o in ((n, 1), (1, n))],
        *[((1,), o) for o in ((), (1, 1))], ((), (1,)))
    which = ctx.int(0, 2)
    shapes = [base] * 3
    shapes[which] = other
    mean, std, t = (dev(np.abs(ctx.rng.normal(size=s)) + 0.1) for s in shapes)
    ctx.desc(shapes=[list(s) for s in shapes])
    scaled = ctx.flip()
    ctx.raises("shape:metric", lambda: mt.nll_gaussian(mean, std, t, scaled=scaled), ValueError)
    ctx.raises("shape:metric", lambda: mt.crps_gaussian(mean, std, t, scaled=scaled), ValueError)
    ctx.raises("shape:metric", lambda: mt.nll_gaussian(pred_mean=mean, pred_std=std, target=t),
               ValueError)
    # a product that does not return what it was given
    pr = gen.make_problem(ctx, ["mse"], small=True, out="vec", n=2)
    keep = api.create_ggn_mv_without_data

    def broken(*x, **k):
        return lambda v, data=None: jax.tree.map(lambda l: jnp.concatenate(
            [l.ravel(), jnp.zeros(1)]), v)
    api.create_ggn_mv_without_data = broken
    try:
        ctx.raises("shape:mv", lambda: api.GGN(pr.model_fn, pr.params, pr.data, "mse"),
                   ValueError)
    finally:
        api.create_ggn_mv_without_data = keep
    st = {"jvp": 1, "vjp": 1, "posterior_state": {}}
    good = cov.Posterior(state={}, cov_mv=lambda s: lambda v: v, scale_mv=lambda s: lambda v: v)
    x = dev(pr.X[0])
    for wrong in ({"posterior_state": {}}, {"jvp": 3}, {"vjp": "f"}, {"jvp": None}):
        d = {"jvp": lambda i, v: v, "vjp": lambda i, v: (v,), "posterior_state": good, **wrong}
        ctx.raises("shape:mv", lambda: pf.lin_setup({}, {}, x, d), TypeError)  # noqa: B023
    del st
    s = ctx.choice("true", "false", "1", "", "yes", "TRUE", " True", "None")
    ctx.raises("name:boolean", lambda: ops.str_to_bool(s), ValueError)
    ctx.true("name:boolean", ops.str_to_bool("True") is True and ops.str_to_bool("False")
             is False)


def family_missing(ctx):
    n = ctx.int(3, 6)
    A = gen.psd(ctx, n, n)
    Ad = dev(A)

    def mv(v):
        return Ad @ v
    ctx.raises("missing:layout", lambda: um.diagonal(mv), TypeError)
    ctx.raises("missing:layout", lambda: um.diagonal(mv, None, mv_jittable=ctx.flip()), TypeError)
    ctx.raises("missing:layout", lambda: cu.get_matvec(mv), TypeError)
    ctx.raises("missing:layout", lambda: cu.get_matvec(mv, layout=None, jit=ctx.flip()),
               TypeError)
    ctx.raises("missing:layout", lambda: lanczos_lowrank(mv, key=ctx.key(), rank=2), TypeError)
    ctx.raises("missing:layout", lambda: cov.estimate_curvature("diagonal", mv), TypeError)
    ctx.raises("missing:layout", lambda: cov.estimate_curvature(
        "lanczos", mv, key=ctx.key(), rank=2), TypeError)
    ctx.raises("missing:key", lambda: lanczos_lowrank(mv, layout=n, rank=2), ValueError)
    ctx.raises("missing:key", lambda: lanczos_lowrank(Ad, rank=ctx.choice(1, 2, 3)), ValueError)
    ctx.raises("missing:key", lambda: cov.estimate_curvature("lanczos", mv, n, rank=2),
               ValueError)
    m = gen.make_model(ctx, small=True)
    p = post.Post(ctx, m.ps)
    ctx.raises("missing:layout", lambda: pf.set_posterior_gp_kernel(
        m.model_fn, m.params, p.fn, p.args, dense=True), ValueError)
    parts = ["create_curvature_fn", "curvature_to_precision_fn", "prec_to_posterior_fn",
             "posterior_state_to_scale_fn", "posterior_state_to_cov_fn",
             "marginal_log_likelihood_fn"]
    keep = [q for q in parts if ctx.flip(0.7)]
    if len(keep) == 6:
        keep.pop(ctx.int(0, 5))
    ctx.desc(n=n, supplied=len(keep))
    e = ctx.raises("missing:functions", lambda: reg.register_curvature_method(
        "c22-never", **{q: (lambda *a, **k: None) for q in keep}), ValueError)
    missing = [q for q in parts if q not in keep]
    ctx.true("missing:functions", e is not None and all(q in str(e) for q in missing)
             and not any(q in str(e) for q in keep), message=str(e), missing=missing)
    ctx.true("missing:functions", "c22-never" not in cov.CURVATURE_METHODS)


# -- valid spellings ----------------------------------------------------------
def equal(ctx, name, a, b, **info):
    la, lb = jax.tree.leaves(a), jax.tree.leaves(b)
    if ctx.true(name, len(la) == len(lb), got=len(la), want=len(lb), **info):
        for x, y in zip(la, lb, strict=True):
            ctx.close(name, to_np(x), to_np(y), tol=1e-12 if ctx.x64 else 1e-6, **info)


def variants(e):
    s = str(e)
    odd = "".join(ch.upper() if i % 2 else ch for i, ch in enumerate(s))
    return [e, s, s.upper(), s.title(), odd]


def family_spelling(ctx):
    what = ("laplace", "calibration", "evaluation")[ctx.index % 3]
    classes = ctx.flip() and what != "laplace"
    f = Fit(ctx, classes=classes)
    pr = f.pr
    ctx.desc(entry=what)
    if what == "laplace":
        kind = ctx.choice(enums.CurvApprox.FULL, enums.CurvApprox.DIAGONAL,
                          enums.CurvApprox.LANCZOS)
        kw = {"rank": 2, "key": f.key} if kind == "lanczos" else {}
        v = pr.params

        def ask(c):
            fn, est = api.laplace(pr.model_fn, pr.params, pr.data, loss_fn=ctx.choice(
                "mse", enums.LossFn.MSE), curv_type=c, **kw)
            r = fn(f.args)
            return est, r.cov_mv(r.state)(v), r.scale_mv(r.state)(v)
        ctx.desc(curv=str(kind))
        want = ctx.call("laplace", ask, kind)
        for s in variants(kind)[1:]:
            equal(ctx, "spelling:laplace", ctx.call("spelling:laplace", ask, s), want, spelt=s)
        return
    P, Q = enums.Predictive, enums.Pushforward
    push = ctx.choice(*Q)
    if classes:
        pred = ctx.choice(P.MC_BRIDGE, *([] if push is Q.NONLINEAR else CLOSED))
    else:
        pred = P.NONE
    ctx.desc(push=str(push), pred=str(pred))
    if what == "evaluation":
        suite = enums.DefaultMetrics.CLASSIFICATION if classes else enums.DefaultMetrics.REGRESSION

        def ask(a, b, c):
            return f.evaluation(pushforward_type=a, predictive_type=b, metrics=c)[0]
        want = ctx.call("evaluation", ask, push, pred, suite)
        for _ in range(2):
            s = [ctx.choice(*variants(e)) for e in (push, pred, suite)]
            equal(ctx, "spelling:evaluation", ctx.call("spelling:evaluation", ask, *s), want,
                  spelt=s)
        return
    O = enums.CalibrationObjective
    obj = ctx.choice(*([O.NLL, O.ECE] if classes else [O.NLL, O.CHI_SQUARED]),
                     O.MARGINAL_LOG_LIKELIHOOD)
    meth = enums.CalibrationMethod.GRID_SEARCH
    kind = enums.CurvApprox(f.kind)

    def ask(a, b, c, d, e):
        return f.calibration(pushforward_type=a, predictive_type=b, calibration_objective=c,
                             calibration_method=d, curv_type=e, grid_size=3,
                             objective_jit=obj is not O.ECE)[0]
    ctx.desc(objective=str(obj))
    want = ctx.call("calibration", ask, push, pred, obj, meth, kind)
    for _ in range(2):
        s = [ctx.choice(*variants(x)) for x in (push, pred, obj, meth, kind)]
        equal(ctx, "spelling:calibration", ctx.call("spelling:calibration", ask, *s), want,
              spelt=s)
