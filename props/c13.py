"""C13: calibration minimizes the stated objective of the actual predictive."""

import jax
import jax.numpy as jnp
import numpy as np

from laplax.api import calibration, calibration_options
from laplax.enums import CalibrationMethod, CalibrationObjective, CurvApprox, Predictive
from laplax.eval import pushforward as pf
from laplax.register import register_calibration_method
from props import c10, c11, c12
from vlib import common, gen, post
from vlib.core import to_np
from vlib.gen import dev, np_softmax

RULE = ("calibrations with distinct (family, precision, model, posterior, objective, "
        "predictive, pushforward, grid, options) whose outcome was compared with the "
        "independently recomputed objective on the grid")
FAMILIES = {
    "regression": (24, 700),
    "classification": (20, 600),
    "sampling": (8, 250),
    "agreement": (8, 250),
    "custom": (14, 400),
}
REQUIRED = ["on-grid", "minimal", "factory", "same-outcome", "custom:objective", "custom:sampled-objective",
            "custom:data", "custom:result", "arguments-untouched", "result-form"]


# -- objectives, recomputed ---------------------------------------------------
def nll(F, S2, Y):
    return float(np.mean(0.5 * np.log(2 * np.pi * S2) + (F - Y) ** 2 / (2 * S2)))


def chi2(F, S2, Y):
    return abs(float(np.mean((F - Y) ** 2 / S2)) - 1)


def ece(conf, correct, bins=15):
    idx = np.minimum((conf * bins).astype(int), bins - 1)
    tot = 0.0
    for b in range(bins):
        sel = idx == b
        if sel.any():
            tot += sel.mean() * abs(conf[sel].mean() - correct[sel].mean())
    return tot


class Setup:
    """A model with a posterior, validation data and the linearized statistics."""

    def __init__(self, ctx, classification, kinds=None):
        out = ctx.choice((2,), (3,)) if classification else None
        losses = ["cross_entropy"] if classification else ["mse"]
        self.pr = gen.make_problem(ctx, losses, small=True, n=ctx.choice(3, 6), onehot=False,
                                   smooth_only=True,
                                   **({"out": out} if out else {}))
        self.m = self.pr.model
        self.kind = ctx.choice(*(kinds or post.KINDS))
        # curvature of moderate size, so that both ends of the grid differ
        self.est, self.M = post.estimate(ctx, self.m.P, self.kind, hi=1.0)
        from laplax.curv.cov import set_posterior_fn

        self.fn = set_posterior_fn(self.kind, self.est, layout=self.m.params)
        self.J = [self.m.jac(x) for x in self.pr.X]
        self.F = np.stack([self.m.out(x) for x in self.pr.X])
        Y = self.pr.Y
        self.Yreg = np.eye(self.m.C)[Y] if classification else Y
        ctx.desc(curv=self.kind)

    def covs(self, tau):
        C = post.covariance(self.M, tau, 1.0, 1.0)
        return [J @ C @ J.T for J in self.J]

    def variances(self, tau):
        return np.stack([np.diag(c).reshape(f.shape)
                         for c, f in zip(self.covs(tau), self.F, strict=True)])

    def objective(self, name, tau, predictive=None):
        if name == "marginal_log_likelihood":
            return -c11.evidence(self.pr, self.M, tau, 1.0, 1.0, 1.0)[0]
        if name in {"nll", "chi_squared"}:
            v = self.variances(tau)
            return (nll if name == "nll" else chi2)(self.F, v, self.Yreg)
        acts = np.stack([c10.closed_form(predictive, f, c) for f, c in
                         zip(self.F, self.covs(tau), strict=True)])
        conf = acts.max(-1)
        edge = np.abs(conf * 15 - np.round(conf * 15))
        edge = edge[(conf > 0.01) & (conf < 0.999)]
        if len(edge) and edge.min() < 1e-4:
            return None
        return ece(conf, (self.F.argmax(-1) == self.pr.Y).astype(float))

    def data(self, form):
        d = self.pr.data
        if form == "dict":
            return d
        t = (d["input"], d["target"])
        return t if form == "tuple" else list(t)


def grid_of(ctx):
    lo = ctx.choice(-3.0, -2, -1.0, 0.0)
    hi = lo + ctx.choice(2.0, 3, 4.0)
    n = ctx.choice(4, 7, 12)
    ctx.desc(lo=lo, hi=hi, n=n)
    return {"log_prior_prec_min": lo, "log_prior_prec_max": hi, "grid_size": n}, \
        10 ** np.linspace(lo, hi, n)


def spelled(ctx, enum, value):
    return ctx.choice(value, value.upper(), enum(value))


def judge(ctx, s, grid, values, args, patience=None):
    ctx.true("result-form", isinstance(args, dict) and set(args) == {"prior_prec"},
             got=args if isinstance(args, dict) else type(args))
    tau = float(to_np(ctx.field("result-form", args, "prior_prec")))
    k = int(np.argmin(np.abs(np.log(grid) - np.log(tau))))
    ctx.rel("on-grid", np.array([tau]), grid[k:k + 1], tol=1e-9 if ctx.x64 else 3e-5)
    if any(v is None for v in values):
        ctx._seen("edge-case-skipped")
        return tau
    v = np.asarray(values)
    v = np.where(np.isnan(v), np.inf, v)
    if not np.isfinite(v).any():
        ctx._seen("undefined-objective")
        return tau
    span = max(1.0, np.abs(v[np.isfinite(v)]).max())
    atol = (1e-8 if ctx.x64 else 2e-4) * span
    if not ctx.x64:
        atol = max(atol, 2e-3 * abs(v[k]))
    if patience is not None:
        if np.abs(np.diff(v)).min() <= atol:  # the stopping point is not clear cut
            ctx._seen("tie-skipped")
            return tau
        n, best = c12.spec(list(v), patience, None)
        v = v[:n]
        ctx.true("minimal", k < n, k=k, n=n)
        if k >= n:
            return tau
    ctx.true("minimal", v[k] <= v.min() + atol, chosen=k, best=int(np.argmin(v)), v=v,
             atol=atol)
    return tau


def check_factory(ctx, s, make, tol_of, predictive=None):
    """The returned factory serves any prior arguments."""
    for _ in range(1):
        tau = ctx.logunif(-1, 2)
        pa = {"prior_prec": tau}
        extra = {}
        s2 = 1.0
        if ctx.flip():
            s2 = pa["sigma_squared"] = ctx.choice(0.5, 2.0)
        pred = ctx.call("factory", make, prior_arguments=pa, **extra)
        x = s.pr.X[ctx.int(0, s.pr.N - 1)]
        r = ctx.call("factory", pred, dev(x))
        f, J = s.m.out(x), s.m.jac(x)
        C = J @ post.covariance(s.M, tau, s2, 1.0) @ J.T
        ctx.close("factory", ctx.field("factory", r, "pred_mean"), f, tol=1e-8 if ctx.x64 else 1e-4,
                  floor=1.0)
        ctx.close("factory", to_np(ctx.field("factory", r, "pred_std")) ** 2,
                  np.diag(C).reshape(f.shape), tol=1e-7 if ctx.x64 else 5e-3,
                  floor=max(np.abs(C).max(), 1e-9))
        if predictive and predictive != "mc_bridge" and c10.sane(ctx, f, C, predictive):
            ctx.close("factory", ctx.field("factory", r, "pred_act"),
                      c10.closed_form(predictive, f, C), tol=1e-6 if ctx.x64 else 2e-2)


def common_kw(ctx, s):
    kw = {"loss_fn": s.pr.loss.lib, "curv_estimate": s.est,
          "curv_type": spelled(ctx, CurvApprox, s.kind)}
    if ctx.flip(0.4):
        kw["objective_jit"] = ctx.flip(0.4)
    if ctx.flip(0.3):
        kw["calibration_method"] = ctx.choice("grid_search", "GRID_SEARCH",
                                              CalibrationMethod.GRID_SEARCH)
    return kw


def family_regression(ctx):
    s = Setup(ctx, False)
    obj = ctx.choice("nll", "chi_squared", "marginal_log_likelihood")
    form = ctx.choice("tuple", "list", "dict")
    gkw, grid = grid_of(ctx)
    kw = common_kw(ctx, s)
    patience = ctx.choice(None, None, 1, 2)
    if patience:
        gkw["patience"] = patience
    if obj != "nll" or ctx.flip():
        kw["calibration_objective"] = spelled(ctx, CalibrationObjective, obj)
    ctx.desc(obj=obj, form=form, patience=patience, opts=sorted(map(str, kw.items()))[-2:])
    data = s.data(form)
    model_fn, strict = s.m.model_fn, [False]
    if obj == "marginal_log_likelihood" and ctx.flip(0.4):
        kw["vmap_over_data"] = False  # the model is to be given whole batches
        strict[0] = True
        nd = np.ndim(s.pr.X)
        ctx.desc(batch_model=True)

        def model_fn(input, params):  # noqa: A002
            if np.ndim(input) == nd:
                return jax.vmap(lambda x: s.m.model_fn(input=x, params=params))(input)
            if strict[0]:
                msg = "a batch model was mapped over the data"
                raise AssertionError(msg)
            return s.m.model_fn(input=input, params=params)
    snap = common.snapshot([data, s.m.params, s.est, kw])
    args, make = ctx.call("calibration", calibration, s.fn, model_fn, s.m.params, data,
                          **kw, **gkw)
    strict[0] = False
    ctx.true("arguments-untouched", common.snapshot([data, s.m.params, s.est, kw]) == snap)
    values = [s.objective(obj, t) for t in grid]
    judge(ctx, s, grid, values, args, patience)
    check_factory(ctx, s, make, None)


def family_classification(ctx):
    s = Setup(ctx, True)
    obj = ctx.choice("nll", "ece", "ece", "marginal_log_likelihood")
    pred = ctx.choice("mean_field_0", "mean_field_1", "mean_field_2", "laplace_bridge")
    gkw, grid = grid_of(ctx)
    kw = common_kw(ctx, s)
    ctx.desc(obj=obj, pred=pred)
    if obj == "ece" and not kw.get("objective_jit", True):
        gkw["grid_size"], grid = 3, 10 ** np.linspace(
            gkw["log_prior_prec_min"], gkw["log_prior_prec_max"], 3)
    form = ctx.choice("tuple", "list", "dict")
    data = s.data(form)
    args, make = ctx.call(
        "calibration", calibration, s.fn, s.m.model_fn, s.m.params, data, **kw, **gkw,
        predictive_type=spelled(ctx, Predictive, pred),
        calibration_objective=spelled(ctx, CalibrationObjective, obj))
    values = [s.objective(obj, t, pred) for t in grid]
    judge(ctx, s, grid, values, args)
    check_factory(ctx, s, make, None, pred)


def sampled_objective(s, key, n, obj, cls, lin, t, s2=1.0):
    """The objective of the ensemble of all n weight samples."""
    zero = s.m.ps.to_tree(np.zeros(s.m.P))

    @jax.jit
    def draws(tau):
        r = s.fn({"prior_prec": tau, "sigma_squared": s2})
        get = pf.set_get_weight_sample(key, zero, r.scale_mv(r.state), n)
        return jax.lax.map(get, jnp.arange(n))
    tree = draws(dev(np.float64(t)))
    W = np.concatenate([np.asarray(x, float).reshape(n, -1) for x in jax.tree.leaves(tree)], 1)
    if lin:
        E = np.stack([s.m.out(x) + (W @ J.T).reshape((n, *s.m.out(x).shape))
                      for x, J in zip(s.pr.X, s.J, strict=True)], 1)
    else:
        E = np.stack([[s.m.out(x, s.m.ps.theta + w) for x in s.pr.X] for w in W])
    if not cls:
        return (nll if obj == "nll" else chi2)(E.mean(0), E.var(0), s.Yreg)
    k = n if lin else min(n, 5)
    conf = np_softmax(E[:k], axis=-1).mean(0).max(-1)
    e = np.abs(conf * 15 - np.round(conf * 15))[(conf > 0.01) & (conf < 0.999)]
    if len(e) and e.min() < 1e-4:
        return None
    return ece(conf, (s.F.argmax(-1) == s.pr.Y).astype(float))


def family_sampling(ctx):
    """Sampling pushforward: the objective of the same weight ensemble."""
    cls = ctx.flip(0.4)
    s = Setup(ctx, cls)
    key, n = ctx.key(), ctx.choice(4, 8, 33)
    lin = cls and ctx.flip()
    obj = "ece" if cls else ctx.choice("nll", "chi_squared")
    gkw, grid = grid_of(ctx)
    kw = common_kw(ctx, s)
    g = gkw["grid_size"] = 5 if kw.get("objective_jit", True) else 3
    grid = 10 ** np.linspace(gkw["log_prior_prec_min"], gkw["log_prior_prec_max"], g)
    if cls:
        kw["predictive_type"] = "mc_bridge"
    ctx.desc(obj=obj, n=n, lin=lin)
    args, make = ctx.call(
        "calibration", calibration, s.fn, s.m.model_fn, s.m.params, s.pr.data, **kw, **gkw,
        calibration_objective=obj, pushforward_type="linear" if lin else "nonlinear",
        sample_key=key, num_samples=n)

    values = [sampled_objective(s, key, n, obj, cls, lin, t) for t in grid]
    if not cls and not np.isfinite(values).all():
        values = [None]
    if not cls and np.nanmax(np.abs([v for v in values if v is not None] or [0])) > 1e6:
        values = [None]
    judge(ctx, s, grid, values, args)
    x = s.pr.X[0]
    r1 = ctx.call("factory", ctx.call("factory", make, prior_arguments={"prior_prec": 2.0}),
                  dev(x))
    r2 = ctx.call("factory", ctx.call("factory", make, prior_arguments={"prior_prec": 2.0}),
                  dev(x))
    ctx.true("factory", np.array_equal(to_np(r1["pred_std"]), to_np(r2["pred_std"])))


def family_agreement(ctx):
    """Compilation, data packaging and option spelling do not change the outcome."""
    cls = ctx.flip()
    s = Setup(ctx, cls, ["full", "diagonal", "lanczos"])
    obj = ctx.choice("nll", "ece") if cls else ctx.choice("nll", "chi_squared",
                                                          "marginal_log_likelihood")
    gkw, grid = grid_of(ctx)
    if cls:
        gkw["grid_size"], grid = 3, 10 ** np.linspace(
            gkw["log_prior_prec_min"], gkw["log_prior_prec_max"], 3)
    ctx.desc(obj=obj)
    base = {"loss_fn": s.pr.loss.lib, "curv_estimate": s.est, "curv_type": s.kind,
            "calibration_objective": obj}
    if cls:
        base["predictive_type"] = "mean_field_0"
    values = [s.objective(obj, t, "mean_field_0") for t in grid]
    taus = []
    for jit, form in [(True, "dict"), (False, "tuple"), (True, "list"), (False, "dict")][:3]:
        args, _ = ctx.call("calibration", calibration, s.fn, s.m.model_fn, s.m.params,
                           s.data(form), objective_jit=jit, **base, **gkw)
        taus.append(judge(ctx, s, grid, values, args))
    if None in values:
        return
    v = np.sort(values)
    if v[1] - v[0] > (1e-7 if ctx.x64 else 1e-3) * max(1.0, np.abs(v).max()):
        ctx.true("same-outcome", len(set(taus)) == 1, taus=taus)
    else:
        ctx.close("same-outcome", np.array([s.objective(obj, t, "mean_field_0") or v[0]
                                            for t in taus]),
                  np.full(len(taus), v[0]), tol=1e-3, floor=1.0)


def family_custom(ctx):
    """Registered calibration methods get the objective and the data."""
    cls = ctx.flip(0.3)
    s = Setup(ctx, cls)
    sampled = not cls and ctx.flip(0.35)
    obj = "nll" if cls else ctx.choice("nll", "chi_squared", *(
        () if sampled else ("marginal_log_likelihood",)))
    form = ctx.choice("tuple", "list", "dict")
    skw = {}
    if sampled:
        skw = {"sample_key": ctx.key(), "num_samples": ctx.choice(3, 12, 24, 45),
               "pushforward_type": "nonlinear"}
        ctx.desc(num_samples=skw["num_samples"])
    name = "verif_custom" + ctx.choice("", "_Upper", "_x")
    token = {"prior_prec": 3.25, "sigma_squared": 0.5, "own": object()}
    seen = []

    def method(objective, data, **kwargs):
        vals = [objective({"prior_prec": t, **e}, data) for t, e in taus]
        seen.append((vals, data, kwargs))
        return token
    taus = [(0.5, {}), (4.0, {}), (1.5, {"sigma_squared": 2.0})]
    extra = ctx.choice({}, {"steps": 3}, {"grid_size": 2, "alpha": "x"},
                       {"lower": 0, "restart": False, "patience": None})
    ctx.desc(obj=obj, form=form, name=name, extra=str(extra))
    before = dict(calibration_options)
    kw = {"predictive_type": "mean_field_0"} if cls else {}
    try:
        register_calibration_method(name, method)
        args, make = ctx.call(
            "calibration", calibration, s.fn, s.m.model_fn, s.m.params, s.data(form),
            loss_fn=s.pr.loss.lib, curv_estimate=s.est, curv_type=s.kind,
            calibration_objective=obj, calibration_method=name,
            objective_jit=ctx.flip(), **kw, **skw, **extra)
    finally:
        calibration_options.clear()
        calibration_options.update(before)
    ctx.true("custom:result", args is token, got=args)
    ctx.true("custom:result", len(seen) == 1, calls=len(seen))
    vals, data, kws = seen[0]
    ctx.true("custom:kwargs", kws == extra, got=kws, want=extra)
    ctx.true("custom:data", isinstance(data, dict) and set(data) >= {"input", "target"},
             got=type(data))
    ctx.close("custom:data", data["input"], s.pr.X, tol=0.0 if ctx.x64 else 1e-7)
    ctx.close("custom:data", data["target"], s.pr.Y, tol=0.0 if ctx.x64 else 1e-7)
    for (t, e), got in zip(taus, vals, strict=True):
        s2 = e.get("sigma_squared", 1.0)
        if sampled:
            want = sampled_objective(s, skw["sample_key"], skw["num_samples"], obj, False,
                                     False, t, s2)
            if np.isfinite(want) and abs(want) < 1e5:
                ctx.close("custom:sampled-objective", got, np.asarray(want),
                          tol=1e-7 if ctx.x64 else 2e-2, floor=1.0, tau=t)
            continue
        keep = s.M
        s.M = s2 * keep
        want = s.objective(obj, t)
        s.M = keep
        ctx.close("custom:objective", got, np.asarray(want), tol=1e-7 if ctx.x64 else 5e-3,
                  floor=1.0, tau=t)
    if not sampled:
        check_factory(ctx, s, make, None)
