"""C09: the sampling predictive reports the statistics of its weight ensemble."""

from functools import partial

import jax
import jax.numpy as jnp
import numpy as np

from laplax.eval import pushforward as pf
from vlib import common, gen, post
from vlib.core import to_np
from vlib.gen import dev, np_softmax

RULE = ("cases with distinct (family, precision, model, posterior, sample count, requested "
        "quantities and order, options) whose predictive was compared with the statistics "
        "of an independently evaluated ensemble")
FAMILIES = {
    "default": (18, 800),
    "orders": (28, 1200),
    "ensemble": (14, 700),
    "classes": (14, 600),
    "options": (6, 300),
}
REQUIRED = ["map", "mean", "variance", "std", "covariance", "samples", "ensemble-size",
            "mc-pred-act", "keys", "same-under-options", "arguments-untouched"]
PARTS = {"pred_mean": "nonlin_pred_mean", "pred_var": "nonlin_pred_var",
         "pred_std": "nonlin_pred_std", "pred_cov": "nonlin_pred_cov",
         "samples": "nonlin_samples"}


def setup(ctx, **kw):
    m = gen.make_model(ctx, small=True, **kw)
    p = post.Post(ctx, m.ps, cond=1e3, hi=0.5)
    return m, p


def weights(ctx, m, r, key, n):
    get = ctx.call("set_get_weight_sample", pf.set_get_weight_sample, key, m.params,
                   r.scale_mv(r.state), n)
    t = ctx.call("get_weight_sample", lambda: jax.lax.map(get, jnp.arange(n)))
    return np.concatenate([np.asarray(x, float).reshape(n, -1) for x in jax.tree.leaves(t)], 1)


def ensemble(m, W, x):
    return np.stack([m.out(x, w) for w in W])


def judge(ctx, res, m, E, x, names=None, nrep=5):
    f = m.out(x)
    n = len(E)
    e2 = 1e-8 if ctx.x64 else 2e-4
    mag = max(np.abs(E).max(), 1e-3)
    ctx.close("map", ctx.field("keys", res, "map"), f, tol=1e-9 if ctx.x64 else 3e-5,
              floor=max(1, np.abs(f).max()))
    if names is not None:
        ctx.true("keys", set(names) <= set(res), got=sorted(res), want=sorted(names))
    if "pred_mean" in res:
        ctx.close("mean", res["pred_mean"], E.mean(0), tol=e2, floor=mag)
    V = E.var(0)
    if "pred_var" in res:
        ctx.close("variance", res["pred_var"], V, tol=4 * e2, floor=mag ** 2)
    if "pred_std" in res:
        ctx.close("std", to_np(res["pred_std"]) ** 2, V, tol=4 * e2, floor=mag ** 2)
        ctx.true("std", np.all(to_np(res["pred_std"]) >= 0))
    if "pred_cov" in res:
        flat = E.reshape(n, -1)
        C = (flat - flat.mean(0)).T @ (flat - flat.mean(0)) / n
        c = to_np(res["pred_cov"])
        if C.size == 1:
            ctx.close("covariance", c.reshape(-1), C.reshape(-1), tol=4 * e2, floor=mag ** 2)
        else:
            ctx.close("covariance", c, C, tol=4 * e2, floor=mag ** 2)
    if "samples" in res:
        k = min(nrep, n)
        s = to_np(res["samples"])
        ctx.true("samples", s.shape[0] <= n and s.shape[1:] == E.shape[1:], got=s.shape)
        if nrep is not None:
            ctx.true("samples", s.shape[0] == k, got=s.shape[0], want=k)
        ctx.close("samples", s, E[:s.shape[0]], tol=e2, floor=mag)
        if "mc_pred_act" in res:
            want = np_softmax(s, axis=1).mean(0)
            ctx.close("mc-pred-act", res["mc_pred_act"], want, tol=1e-7 if ctx.x64 else 1e-4)


def run(ctx, m, p, fns, xs, n, key, **kw):
    snap = common.snapshot([m.params, p.args, list(fns)])
    pred = ctx.call("set_nonlin_pushforward", pf.set_nonlin_pushforward, model_fn=m.model_fn,
                    mean_params=m.params, posterior_fn=p.fn, prior_arguments=p.args,
                    pushforward_fns=fns, key=key, num_samples=n, **p.extra, **kw)
    fn = jax.jit(pred) if ctx.flip(0.8) else pred
    outs = [ctx.call("prob_predictive", fn, dev(x)) for x in xs]
    ctx.true("arguments-untouched", common.snapshot([m.params, p.args, list(fns)]) == snap)
    return outs


def family_default(ctx):
    m, p = setup(ctx)
    n, key = ctx.choice(1, 2, 4, 7, 12), ctx.key()
    ctx.desc(n=n)
    xs = gen.make_inputs(ctx, m, 3)
    xs[2] = xs[0]
    outs = run(ctx, m, p, pf.DEFAULT_NONLIN_FINALIZE_FNS, xs, n, key)
    W = weights(ctx, m, p.realize(ctx), key, n)
    for x, res in zip(xs, outs, strict=True):
        judge(ctx, res, m, ensemble(m, W, x), x, PARTS)


def family_orders(ctx):
    m, p = setup(ctx)
    names = [k for k in PARTS if ctx.flip(0.7)] or ["pred_var"]
    names = [names[i] for i in ctx.rng.permutation(len(names))]
    if ctx.flip(0.2):
        names.append(names[0])
    n, key = ctx.choice(1, 2, 3, 6), ctx.key()
    ctx.desc(order=names, n=n)
    fns = [pf.nonlin_setup] + [getattr(pf, PARTS[k]) for k in names]
    xs = gen.make_inputs(ctx, m, 2)
    outs = run(ctx, m, p, fns, xs, n, key)
    W = weights(ctx, m, p.realize(ctx), key, n)
    for x, res in zip(xs, outs, strict=True):
        judge(ctx, res, m, ensemble(m, W, x), x, names)


def family_ensemble(ctx):
    """The whole ensemble: exactly the requested members, the same for every input."""
    m, p = setup(ctx)
    n, key = ctx.choice(1, 3, 5, 8, 20, 60, 130), ctx.key()
    more = ctx.choice(n, n + 7, max(1, n - 2))
    kw = ctx.choice({}, {"nonlin_setup_batch_size": 2}, {"weight_batch_size": 3},
                    {"precompute": False}, {"precompute_list_batch_size": 2},
                    {"nonlin_setup_batch_size": n, "weight_batch_size": 1})
    ctx.desc(n=n, more=more, opt=str(kw))
    fns = [pf.nonlin_setup, partial(pf.nonlin_samples, num_samples=more), pf.nonlin_pred_mean,
           pf.nonlin_pred_cov]
    xs = gen.make_inputs(ctx, m, 2)
    outs = run(ctx, m, p, fns, xs, n, key, **kw)
    W = weights(ctx, m, p.realize(ctx), key, n)
    for x, res in zip(xs, outs, strict=True):
        s = to_np(ctx.field("keys", res, "samples"))
        ctx.true("ensemble-size", s.shape[0] == min(n, more), got=s.shape[0], n=n, more=more)
        judge(ctx, res, m, ensemble(m, W, x), x, ["samples", "pred_mean", "pred_cov"], more)


def family_classes(ctx):
    m, p = setup(ctx, out="vec")
    n, key = ctx.choice(1, 3, 8), ctx.key()
    order = ctx.choice("first", "after", "after-samples")
    rep = ctx.choice(5, 2, n)
    ctx.desc(n=n, order=order, rep=rep)
    sm = partial(pf.nonlin_samples, num_samples=rep)
    fns = {"first": [pf.nonlin_setup, pf.nonlin_mc_pred_act],
           "after": [pf.nonlin_setup, pf.nonlin_pred_mean, pf.nonlin_pred_std,
                     pf.nonlin_mc_pred_act],
           "after-samples": [pf.nonlin_setup, sm, pf.nonlin_mc_pred_act,
                             pf.nonlin_pred_var]}[order]
    xs = gen.make_inputs(ctx, m, 2)
    outs = run(ctx, m, p, fns, xs, n, key)
    W = weights(ctx, m, p.realize(ctx), key, n)
    for x, res in zip(xs, outs, strict=True):
        pr = to_np(ctx.field("keys", res, "mc_pred_act"))
        ctx.field("keys", res, "samples")
        judge(ctx, res, m, ensemble(m, W, x), x, ["mc_pred_act"],
              rep if order == "after-samples" else 5)
        ctx.close("mc-pred-act", pr.sum(), 1.0, tol=1e-5)
        ctx.true("mc-pred-act", np.all(pr >= 0))


def family_options(ctx):
    m, p = setup(ctx)
    n, key = 6, ctx.key()
    xs = gen.make_inputs(ctx, m, 1)
    ref = run(ctx, m, p, pf.DEFAULT_NONLIN_FINALIZE_FNS, xs, n, key)[0]
    variants = [
        (pf.DEFAULT_NONLIN_FINALIZE_FNS, {"nonlin_setup_batch_size": 4}),
        (pf.DEFAULT_NONLIN_FINALIZE_FNS, {"weight_batch_size": 1, "precompute": False}),
        ([pf.nonlin_setup, pf.nonlin_pred_std], {}),
        ([pf.nonlin_setup, pf.nonlin_pred_cov, pf.nonlin_pred_std, pf.nonlin_pred_var], {}),
        ([pf.nonlin_setup, pf.nonlin_samples], {"precompute_list_batch_size": 4}),
    ]
    mag = max(np.abs(to_np(ref["samples"])).max(), np.abs(to_np(ref["pred_mean"])).max(), 1e-3)
    for i in ctx.rng.permutation(len(variants))[:2]:
        fns, kw = variants[i]
        got = run(ctx, m, p, fns, xs, n, key, **kw)[0]
        for k, v in got.items():
            a, b, fl = to_np(v), to_np(ref[k]), mag
            if k == "pred_std":
                a, b = a ** 2, b ** 2
            if k in {"pred_std", "pred_var", "pred_cov"}:
                fl = mag ** 2
            ctx.close("same-under-options", a, b, tol=1e-9 if ctx.x64 else 3e-4, floor=fl,
                      key=k, variant=int(i))
