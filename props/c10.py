"""C10: classification predictives."""

from functools import partial

import jax
import numpy as np

from laplax.api import evaluation
from laplax.enums import Predictive, Pushforward
from laplax.eval import predictives as pv
from laplax.eval import pushforward as pf
from vlib import gen, post
from vlib.core import to_np
from vlib.gen import dev, np_softmax

RULE = ("cases with distinct (family, precision, number of classes, logits, covariance kind, "
        "predictive, pushforward) whose class prediction was compared with its closed form")
FAMILIES = {
    "formulas": (240, 6000),
    "laws": (160, 4000),
    "linear": (28, 700),
    "nonlinear": (24, 700),
    "api": (28, 700),
}
REQUIRED = ["mean-field-0", "mean-field-1", "mean-field-2", "laplace-bridge", "simplex",
            "vanishing-variance", "shift-invariant", "permutation", "mc", "pred-act"]


def mf0(mean, var):
    return np_softmax(mean / np.sqrt(1 + np.pi / 8 * var))


def mf1(mean, var):
    C = len(mean)
    return np.array([1 / sum(np.exp((mean[j] - mean[i])
                                    / np.sqrt(1 + np.pi / 8 * (var[i] + var[j])))
                             for j in range(C)) for i in range(C)])


def mf2(mean, cov):
    C = len(mean)
    return np.array([1 / sum(np.exp((mean[j] - mean[i]) / np.sqrt(
        1 + np.pi / 8 * (cov[i, i] + cov[j, j] - 2 * cov[i, j])))
        for j in range(C)) for i in range(C)])


def bridge(mean, var, corr):
    """In log space, so that any logits are covered."""
    mean, var = np.asarray(mean, np.longdouble), np.asarray(var, np.longdouble)
    C = len(mean)
    if corr:
        c = var.sum(0) / np.sqrt(np.longdouble(C) / 2)
        mean, var = mean / np.sqrt(c), var / c
    z = -mean
    lse = z.max(0) + np.log(np.exp(z - z.max(0)).sum(0))
    la = mean + lse - 2 * np.log(np.longdouble(C))
    if C > 2:
        la = np.logaddexp(la, np.log(1 - np.longdouble(2) / C))
    la = la - np.log(var)
    e = np.exp(la - la.max(0))
    return np.asarray(e / e.sum(0), float)


def logits(ctx, C, span=None):
    span = span or ctx.choice(0.1, 1.0, 5.0, 15.0)
    m = gen.f32(ctx.rng.normal(size=C) * span)
    ctx.desc(C=C, span=span)
    return np.clip(m, -30, 30)


def cov_matrix(ctx, C):
    k = ctx.choice("full", "diag", "rank1", "tiny", "large")
    A = ctx.rng.normal(size=(C, C))
    S = {"full": A @ A.T, "diag": np.diag(A[0] ** 2 + 0.01),
         "rank1": np.outer(A[0], A[0]) + 1e-3 * np.eye(C), "tiny": 1e-5 * (A @ A.T + np.eye(C)),
         "large": 100 * (A @ A.T)}[k]
    ctx.desc(cov=k)
    S = gen.f32((S + S.T) / 2)
    S[np.diag_indices(C)] = np.maximum(np.diag(S), 1e-6)
    return S


def tol(ctx, mean=None):
    return 1e-9 if ctx.x64 else 2e-5 * (1 + (np.ptp(mean) if mean is not None else 0))


def simplex(ctx, p, what):
    p = to_np(p)
    ctx.true("simplex", np.all(p >= 0) and np.all(np.abs(p.sum(0) - 1) < 1e-5), what=what, p=p)


def family_formulas(ctx):
    C = ctx.choice(1, 2, 3, 4, 7, 10, 40)
    mean, S = logits(ctx, C), cov_matrix(ctx, C)
    var = np.diag(S).copy()
    t = tol(ctx, mean)
    jit = jax.jit if ctx.flip(0.15) else (lambda f: f)
    kw = ctx.choice({}, {"use_correction": True}, {"use_correction": False, "extra": 1})
    p0 = ctx.call("mean_field_0", jit(lambda m, v: pv.mean_field_0_predictive(m, v, **kw)),
                  dev(mean), dev(var))
    ctx.close("mean-field-0", p0, mf0(mean, var), tol=t)
    simplex(ctx, p0, "mean_field_0")
    p1 = ctx.call("mean_field_1", jit(lambda m, v: pv.mean_field_1_predictive(m, v, **kw)),
                  dev(mean), dev(var))
    ctx.rel("mean-field-1", p1, mf1(mean, var), tol=10 * t, floor=1e-9)
    p2 = ctx.call("mean_field_2", jit(pv.mean_field_2_predictive), dev(mean), dev(S))
    ctx.rel("mean-field-2", p2, mf2(mean, S), tol=100 * t, floor=1e-9)
    if C >= 2:
        corr = ctx.flip()
        ctx.desc(corr=corr)
        if ctx.flip(0.3):  # confident, far apart
            mean, var = 10 * mean, 1e-2 * var
        c = var.sum() / np.sqrt(C / 2)
        sp = np.abs(mean).max() / (np.sqrt(c) if corr else 1)
        pb = ctx.call("laplace_bridge", pv.laplace_bridge, dev(mean), dev(var),
                      use_correction=corr)
        ctx.close("laplace-bridge", pb, bridge(mean, var, corr),
                  tol=1e-13 * (1e5 + sp) if ctx.x64 else 2e-6 * (10 + sp))
        simplex(ctx, pb, "laplace_bridge")
        if ctx.flip(0.3):  # class axis first, any trailing axes
            M = np.stack([mean, mean[::-1], 0.5 * mean], 1)
            V = np.stack([var, var, var[::-1]], 1)
            pb = ctx.call("laplace_bridge", pv.laplace_bridge, dev(M), dev(V),
                          use_correction=corr)
            ctx.close("laplace-bridge", pb, bridge(M, V, corr),
                      tol=1e-13 * (1e5 + sp) if ctx.x64 else 2e-6 * (10 + sp))
            simplex(ctx, pb, "laplace_bridge")


def family_laws(ctx):
    C = ctx.choice(2, 3, 5, 8)
    mean, S = logits(ctx, C, ctx.choice(0.1, 1.0, 3.0)), cov_matrix(ctx, C)
    var = np.diag(S).copy()
    t = tol(ctx, mean)
    forms = {
        "mean_field_0": (pv.mean_field_0_predictive, var, lambda v, q: v[q]),
        "mean_field_1": (pv.mean_field_1_predictive, var, lambda v, q: v[q]),
        "mean_field_2": (pv.mean_field_2_predictive, S, lambda v, q: v[np.ix_(q, q)]),
    }
    for name, (fn, s, perm) in forms.items():
        base = to_np(ctx.call(name, fn, dev(mean), dev(s)))
        shift = float(np.float32(ctx.rng.normal() * 10))
        if name == "mean_field_0":  # only for equal variances
            eq = np.full(C, var[0])
            before = to_np(ctx.call(name, fn, dev(mean), dev(eq)))
            moved = ctx.call(name, fn, dev(mean + shift), dev(eq))
        else:
            before, moved = base, ctx.call(name, fn, dev(mean + shift), dev(s))
        ctx.close("shift-invariant", moved, before, tol=20 * t + (0 if ctx.x64 else 1e-4),
                  which=name, shift=shift)
        q = ctx.rng.permutation(C)
        pm = ctx.call(name, fn, dev(mean[q]), dev(perm(s, q)))
        ctx.close("permutation", pm, base[q], tol=5 * t, which=name)
        lim = ctx.call(name, fn, dev(mean), dev(s * 0.0))
        ctx.close("vanishing-variance", lim, np_softmax(mean), tol=5 * t, which=name)
    q = ctx.rng.permutation(C)
    a = to_np(ctx.call("laplace_bridge", pv.laplace_bridge, dev(mean), dev(var),
                       use_correction=True))
    b = ctx.call("laplace_bridge", pv.laplace_bridge, dev(mean[q]), dev(var[q]),
                 use_correction=True)
    ctx.close("permutation", b, a[q], tol=1e-8 if ctx.x64 else 1e-3, which="bridge")


def closed_form(kind, f, C, corr=True):
    v = np.diag(C)
    if kind == "laplace_bridge":
        return bridge(f, v, corr)
    return {"mean_field_0": mf0, "mean_field_1": mf1}[kind](f, v) if kind != "mean_field_2" \
        else mf2(f, C)


def model_and_post(ctx, cond=None):
    m = gen.make_model(ctx, small=True, out=ctx.choice((2,), (3,), (4,)))
    p = post.Post(ctx, m.ps, cond=cond or (1e4 if ctx.x64 else 1e2))
    return m, p


def family_linear(ctx):
    m, p = model_and_post(ctx)
    kind = ctx.choice("mean_field_0", "mean_field_1", "mean_field_2", "laplace_bridge", "mc")
    spell = ctx.choice(kind, Predictive(kind)) if kind != "mc" else kind
    pre = [pf.lin_setup] + ctx.choice([], [pf.lin_pred_mean], [pf.lin_pred_var],
                                      [pf.lin_pred_cov], [pf.lin_pred_std, pf.lin_pred_cov],
                                      [pf.lin_pred_mean, pf.lin_pred_cov, pf.lin_pred_var])
    ctx.desc(kind=kind, pre=[f.__name__ for f in pre])
    kw, corr = {}, True
    if kind == "laplace_bridge" and ctx.flip():
        corr = ctx.flip()
        kw = {"use_correction": corr}
    if kind == "mc":
        n = ctx.choice(1, 2, 5, 7)
        ctx.desc(n=n)
        kw = {"key": ctx.key(), "num_samples": n}
        fns = [*pre, *([pf.lin_samples] if ctx.flip() else []), pf.lin_mc_pred_act]
    elif ctx.flip():
        fns = [*pre, partial(pf.lin_special_pred_act, special_pred_type=spell)]
    else:
        fns = [*pre, pf.lin_special_pred_act]
        kw["special_pred_type"] = spell
    pred = ctx.call("set_lin_pushforward", pf.set_lin_pushforward, model_fn=m.model_fn,
                    mean_params=m.params, posterior_fn=p.fn, prior_arguments=p.args,
                    pushforward_fns=fns, **p.extra, **kw)
    fn = jax.jit(pred)
    for x in gen.make_inputs(ctx, m, 2):
        res = ctx.call("prob_predictive", fn, dev(x))
        f, J = m.out(x), m.jac(x)
        C = J @ p.cov @ J.T
        if kind == "mc":
            s = to_np(ctx.field("mc", res, "samples"))
            ctx.true("mc", s.shape == (n, m.C), n=n, got=s.shape)
            got = ctx.field("mc", res, "mc_pred_act")
            ctx.close("mc", got, np_softmax(s, axis=1).mean(0), tol=1e-7 if ctx.x64 else 1e-4)
            simplex(ctx, got, "mc")
            continue
        got = ctx.field("pred-act", res, "special_pred_act")
        ctx.true("class-axis", np.shape(got) == (m.C,), shape=np.shape(got))
        if not sane(ctx, f, C, kind, corr):
            continue
        ctx.close(f"{kind.replace('_', '-')}", got, closed_form(kind, f, C, corr),
                  tol=sens(ctx, p, f), kind=kind)
        if kind in {"mean_field_0", "laplace_bridge"}:
            simplex(ctx, got, kind)


def sane(ctx, f, C, kind, corr=True):
    """The closed form is well conditioned (no overflow, no 0/0)."""
    v = np.diag(C)
    if v.min() <= 1e-5 * max(v.max(), 1e-30) or v.max() < 1e-8:
        return kind != "laplace_bridge" and v.max() > 0 and v.min() >= 0
    if kind == "laplace_bridge":
        c = v.sum() / np.sqrt(len(f) / 2)  # sensitivity to rounding, not overflow
        return np.ptp(f / (np.sqrt(c) if corr else 1)) < 20
    return np.ptp(f) < 60


def sens(ctx, p, f):
    return max(1e-6, 200 * p.tol) if ctx.x64 else max(5e-3, 500 * p.tol)


def family_nonlinear(ctx):
    m, p = model_and_post(ctx, 1e3)
    kind = ctx.choice("mean_field_0", "mean_field_1", "mean_field_2", "laplace_bridge", "mc")
    n, key = ctx.choice(3, 4, 5, 12), ctx.key()
    spell = ctx.choice(kind, Predictive(kind)) if kind != "mc" else kind
    pre = [pf.nonlin_setup] + ctx.choice([], [pf.nonlin_pred_mean], [pf.nonlin_pred_var],
                                         [pf.nonlin_pred_mean, pf.nonlin_pred_std])
    act = (pf.nonlin_mc_pred_act if kind == "mc"
           else partial(pf.nonlin_special_pred_act, special_pred_type=spell))
    ctx.desc(kind=kind, n=n, pre=[f.__name__ for f in pre])
    pred = ctx.call("set_nonlin_pushforward", pf.set_nonlin_pushforward, model_fn=m.model_fn,
                    mean_params=m.params, posterior_fn=p.fn, prior_arguments=p.args, key=key,
                    num_samples=n,
                    pushforward_fns=[*pre, partial(pf.nonlin_samples, num_samples=n), act],
                    **p.extra)
    fn = jax.jit(pred)
    for x in gen.make_inputs(ctx, m, 2):
        res = ctx.call("prob_predictive", fn, dev(x))
        E = to_np(ctx.field("pred-act", res, "samples"))
        if kind == "mc":
            got = ctx.field("pred-act", res, "mc_pred_act")
            ctx.close("mc", got, np_softmax(E, axis=1).mean(0), tol=1e-7 if ctx.x64 else 1e-4)
            simplex(ctx, got, "mc")
            continue
        f = E.mean(0)
        C = (E - f).T @ (E - f) / n
        got = ctx.field("pred-act", res, "special_pred_act")
        ctx.true("class-axis", np.shape(got) == (m.C,), shape=np.shape(got))
        if not sane(ctx, f, C, kind):
            continue
        ctx.close(f"{kind.replace('_', '-')}", got, closed_form(kind, f, C),
                  tol=1e-6 if ctx.x64 else 2e-2, kind=kind)


def family_api(ctx):
    """Class predictions of the high-level predictives."""
    m, p = model_and_post(ctx)
    lin = ctx.flip(0.7)
    kind = ctx.choice("mean_field_0", "mean_field_1", "mean_field_2", "laplace_bridge",
                      "mc_bridge") if lin else "mc_bridge"
    n, key = ctx.choice(1, 2, 3, 5, 8), ctx.key()
    pt = ctx.choice(kind, kind.upper(), Predictive(kind))
    push = "linear" if lin else "nonlinear"
    ps = ctx.choice(push, push.capitalize(), Pushforward(push))
    ctx.desc(kind=str(pt), push=str(ps), n=n)
    X = gen.make_inputs(ctx, m, 3)
    Y = ctx.rng.integers(0, m.C, size=3).astype(np.int32)

    def grab(results, aux, **kwargs):
        del kwargs
        return {**results, **{k: aux[k] for k in ("map", "pred_mean", "pred_act")}}, aux

    res, pred = ctx.call("evaluation", evaluation, p.fn, m.model_fn, m.params, p.args,
                         {"input": dev(X), "target": dev(Y)}, metrics=[grab],
                         predictive_type=pt, pushforward_type=ps, sample_key=key,
                         num_samples=n)
    # evaluation has no loss scaling argument
    cov = post.covariance(p.M, p.tau, p.s2, 1.0)
    for i, x in enumerate(X):
        r = ctx.call("prob_predictive", pred, dev(x))
        act = to_np(ctx.field("pred-act", r, "pred_act"))
        ctx.close("pred-act", ctx.field("pred-act", res, "pred_act")[i], act,
                  tol=1e-9 if ctx.x64 else 2e-3)
        if kind == "mc_bridge":
            s = to_np(ctx.field("mc", r, "samples"))
            ctx.close("mc", act, np_softmax(s, axis=1).mean(0), tol=1e-7 if ctx.x64 else 1e-4)
            ctx.close("mc", ctx.field("mc", r, "mc_pred_act"), act, tol=1e-12)
            simplex(ctx, act, "mc")
            if lin:
                ctx.true("mc", len(s) == n, n=n, got=len(s))
            continue
        f, J = m.out(x), m.jac(x)
        C = J @ cov @ J.T
        if sane(ctx, f, C, kind):
            ctx.close("pred-act", act, closed_form(kind, f, C), tol=sens(ctx, p, f),
                      kind=kind)
            if kind in {"mean_field_0", "laplace_bridge"}:
                simplex(ctx, act, kind)
