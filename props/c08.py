"""C08: the linearized predictive is the Gaussian N(f(x), J Sigma J^T)."""

import jax
import jax.numpy as jnp
import numpy as np

from laplax.api import laplace
from laplax.eval import pushforward as pf
from vlib import common, gen, post
from vlib.core import to_np
from vlib.gen import dev

RULE = ("cases with distinct (family, precision, model, parameter structure, posterior, "
        "requested quantities and their order, options) whose predictive was compared with "
        "the Jacobian oracle")
FAMILIES = {
    "default": (20, 700),
    "orders": (40, 1200),
    "samples": (20, 600),
    "pipeline": (18, 400),
    "options": (12, 300),
}
REQUIRED = ["map", "mean", "variance", "std", "covariance", "samples", "sample-count",
            "keys", "arguments-untouched", "same-under-options"]

PARTS = {"pred_mean": "lin_pred_mean", "pred_var": "lin_pred_var", "pred_std": "lin_pred_std",
         "pred_cov": "lin_pred_cov", "samples": "lin_samples"}


def setup(ctx, **kw):
    m = gen.make_model(ctx, small=True, **kw)
    p = post.Post(ctx, m.ps, cond=1e4 if ctx.x64 else 1e2)
    return m, p


def oracle(m, cov, x):
    J = m.jac(x)
    return m.out(x), J, J @ cov @ J.T


def judge(ctx, res, m, cov, x, tol, want_keys=None):
    f, J, C = oracle(m, cov, x)
    scale = max(np.linalg.norm(cov, 2) * max(np.linalg.norm(J, 2) ** 2, 1e-12), 1e-30)
    fl = max(np.abs(f).max(), 1e-3)
    ctx.close("map", ctx.field("keys", res, "map"), f, tol=1e-9 if ctx.x64 else 3e-5, floor=1 + fl)
    if want_keys is not None:
        ctx.true("keys", set(want_keys) <= set(res), got=sorted(res), want=sorted(want_keys))
    shape = np.shape(f)
    var = np.diag(C).reshape(shape)
    if "pred_mean" in res:
        ctx.close("mean", res["pred_mean"], f, tol=1e-9 if ctx.x64 else 3e-5, floor=1 + fl)
    if "pred_var" in res:
        ctx.close("variance", res["pred_var"], var, tol=tol, floor=scale)
        ctx.close("variance", np.asarray(res["pred_var"]), var, tol=max(1e3 * tol, 1e-6),
                  floor=0.0) if ctx.x64 and var.min() > 1e-6 * scale else None
    if "pred_std" in res:
        s = to_np(res["pred_std"])
        ctx.close("std", s ** 2, var, tol=2 * tol, floor=scale)
        ctx.true("std", np.all(s >= 0) or np.isnan(s).any(), s=s)
    if "pred_cov" in res:
        c = to_np(res["pred_cov"])
        if C.shape == (1, 1):
            ctx.close("covariance", c.reshape(-1), C.reshape(-1), tol=tol, floor=scale)
        else:
            ctx.close("covariance", c, C, tol=tol, floor=scale)
    return f, J, C, scale


def weights(ctx, m, r, key, n):
    """The zero-mean posterior draws the samples must be built from."""
    zero = m.ps.to_tree(np.zeros(m.P))
    get = ctx.call("set_get_weight_sample", pf.set_get_weight_sample, key, zero,
                   r.scale_mv(r.state), n)
    t = ctx.call("get_weight_sample", lambda: jax.lax.map(get, jnp.arange(n)))
    return np.concatenate([np.asarray(x, float).reshape(n, -1) for x in jax.tree.leaves(t)], 1)


def judge_samples(ctx, res, f, J, W, n, tol, scale):
    s = to_np(ctx.field("keys", res, "samples"))
    ctx.true("sample-count", s.shape == (n, *np.shape(f)), got=s.shape, want=(n, *np.shape(f)))
    want = f[None] + (W @ J.T).reshape(n, *np.shape(f))
    ctx.close("samples", s, want, tol=1e-9 if ctx.x64 else 1e-4,
              floor=np.abs(f).max() + 3 * np.sqrt(scale) + 1e-3)


def run(ctx, m, p, fns, xs, **kw):
    snap = common.snapshot([m.params, p.args, list(fns)])
    pred = ctx.call("set_lin_pushforward", pf.set_lin_pushforward, model_fn=m.model_fn,
                    mean_params=m.params, posterior_fn=p.fn, prior_arguments=p.args,
                    pushforward_fns=fns, **p.extra, **kw)
    jitted = ctx.flip(0.8)
    fn = jax.jit(pred) if jitted else pred
    outs = [ctx.call("prob_predictive", fn, dev(x)) for x in xs]
    ctx.true("arguments-untouched", common.snapshot([m.params, p.args, list(fns)]) == snap)
    return outs


def family_default(ctx):
    m, p = setup(ctx)
    n = ctx.choice(1, 3)
    key = ctx.key()
    xs = gen.make_inputs(ctx, m, 2)
    outs = run(ctx, m, p, pf.DEFAULT_LIN_FINALIZE_FNS, xs, key=key, num_samples=n)
    r = p.realize(ctx)
    W = weights(ctx, m, r, key, n)
    for x, res in zip(xs, outs, strict=True):
        f, J, C, sc = judge(ctx, res, m, p.cov, x, p.tol, PARTS)
        judge_samples(ctx, res, f, J, W, n, p.tol, sc)


def family_orders(ctx):
    """Any subset in any order, repeated entries included."""
    m, p = setup(ctx)
    names = [k for k in PARTS if k != "samples" or ctx.flip(0.4)]
    names = [names[i] for i in ctx.rng.permutation(len(names))]
    names = names[:ctx.int(1, len(names))]
    if ctx.flip(0.2):
        names.append(names[0])
    ctx.desc(order=names)
    fns = [pf.lin_setup] + [getattr(pf, PARTS[k]) for k in names]
    if ctx.flip(0.2):
        fns = tuple(fns)
    kw = {}
    n, key = 2, ctx.key()
    if "samples" in names:
        kw = {"key": key, "num_samples": n}
    xs = gen.make_inputs(ctx, m, 2)
    outs = run(ctx, m, p, fns, xs, **kw)
    W = weights(ctx, m, p.realize(ctx), key, n) if "samples" in names else None
    for x, res in zip(xs, outs, strict=True):
        f, J, C, sc = judge(ctx, res, m, p.cov, x, p.tol, names)
        if W is not None:
            judge_samples(ctx, res, f, J, W, n, p.tol, sc)


def family_samples(ctx):
    m, p = setup(ctx)
    n, key = ctx.choice(1, 2, 5, 9, 9, 60, 130), ctx.key()
    kw = ctx.choice({}, {"lin_samples_batch_size": 2}, {"weight_batch_size": 3},
                    {"precompute": False}, {"set_get_weight_sample_precompute": False},
                    {"precompute_list_batch_size": 2})
    ctx.desc(n=n, opt=str(kw))
    fns = ctx.choice([pf.lin_setup, pf.lin_samples],
                     [pf.lin_setup, pf.lin_pred_mean, pf.lin_samples],
                     [pf.lin_setup, pf.lin_samples, pf.lin_pred_cov, pf.lin_pred_var],
                     [pf.lin_setup, pf.lin_pred_std, pf.lin_samples])
    xs = gen.make_inputs(ctx, m, 2)
    outs = run(ctx, m, p, fns, xs, key=key, num_samples=n, **kw)
    W = weights(ctx, m, p.realize(ctx), key, n)
    for x, res in zip(xs, outs, strict=True):
        f, J, C, sc = judge(ctx, res, m, p.cov, x, p.tol)
        judge_samples(ctx, res, f, J, W, n, p.tol, sc)


def family_pipeline(ctx):
    """From data to predictive: the covariance comes from the Jacobians of the data."""
    kind = ctx.choice("full", "diagonal", "lanczos")
    pr = gen.make_problem(ctx, ["mse", "cross_entropy", "binary_cross_entropy"],
                          small=True, out="vec", n=ctx.choice(2, 4))
    m = pr.model
    G = pr.ggn()
    kw = {"rank": m.P, "key": ctx.key()} if kind == "lanczos" else {}
    if kind == "diagonal":
        G = np.diag(np.diag(G))
    ctx.desc(curv=kind)
    fn, est = ctx.call("laplace", laplace, m.model_fn, m.params, pr.data, loss_fn=pr.loss.lib,
                     curv_type=kind, **kw)
    if kind == "lanczos":  # what it found (repeated eigenvalues appear once, see C05)
        G = (to_np(est.U) * to_np(est.S)) @ to_np(est.U).T
    p = post.Post.__new__(post.Post)
    p.M, p.fn = G, fn
    p.args, p.extra, p.tau, p.s2, p.c = post.prior(ctx, G, 1e4 if ctx.x64 else 1e2)
    p.cov = post.covariance(G, p.tau, p.s2, p.c)
    p.tol = max(post.cov_tol(ctx, G, p.tau, p.s2), 1e-6 if ctx.x64 else 5e-3)
    if kind == "lanczos":
        p.tol = max(p.tol, 1e-4 if ctx.x64 else 3e-2)
    ctx.desc(tau=p.tau, s2=p.s2, c=p.c)
    xs = gen.make_inputs(ctx, m, 2)
    names = ["pred_mean", "pred_cov", "pred_var", "pred_std"]
    outs = run(ctx, m, p, [pf.lin_setup] + [getattr(pf, PARTS[k]) for k in names], xs)
    for x, res in zip(xs, outs, strict=True):
        judge(ctx, res, m, p.cov, x, p.tol, names)


def family_options(ctx):
    """Quantities do not depend on options or on what else is computed."""
    m, p = setup(ctx)
    x = gen.make_inputs(ctx, m, 1)
    key, n = ctx.key(), 3
    ref = run(ctx, m, p, pf.DEFAULT_LIN_FINALIZE_FNS, x, key=key, num_samples=n)[0]
    variants = [
        (pf.DEFAULT_LIN_FINALIZE_FNS, {"mv_jittable": False}),
        (pf.DEFAULT_LIN_FINALIZE_FNS, {"weight_batch_size": 2, "lin_samples_batch_size": 1}),
        ([pf.lin_setup, pf.lin_pred_std], {}),
        ([pf.lin_pred_mean], {}),
        ([pf.lin_setup, pf.lin_pred_var], {"mv_jittable": False}),
        ([pf.lin_setup, pf.lin_samples, pf.lin_pred_mean], {"precompute": False}),
    ]
    for i in ctx.rng.permutation(len(variants))[:2]:
        fns, kw = variants[i]
        got = run(ctx, m, p, fns, x, key=key, num_samples=n, **kw)[0]
        for k, v in got.items():
            if k in ref:
                a, b = to_np(v), to_np(ref[k])
                if k == "pred_std":
                    a, b = a ** 2, b ** 2
                ctx.close("same-under-options", a, b, tol=max(10 * p.tol, 1e-9),
                          floor=max(np.abs(b).max(), oracle_scale(m, p, x[0])), key=k,
                          variant=int(i))


def oracle_scale(m, p, x):
    J = m.jac(x)
    return np.linalg.norm(p.cov, 2) * max(np.linalg.norm(J, 2) ** 2, 1e-12)
