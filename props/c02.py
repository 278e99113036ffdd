"""C02: Hessian products equal the true Hessian of the summed loss."""

import jax
import jax.numpy as jnp
import numpy as np

from laplax.curv.ggn import create_ggn_mv
from laplax.curv.hessian import (
    create_hessian_mv,
    create_hessian_mv_without_data,
    hvp,
)
from laplax.enums import LossFn
from vlib import common, gen
from props.c01 import counts

RULE = ("cases with distinct (family, precision, model, container, shapes, loss, batch, "
        "factor) whose products were compared with a float64 Hessian obtained by "
        "extrapolated differences of complex-step gradients")
FAMILIES = {
    "batched": (110, 1800),
    "unbatched": (40, 600),
    "linear_model": (40, 600),
    "without_data": (24, 300),
    "hvp": (32, 400),
    "saturated": (24, 500),
}
REQUIRED = ["hessian", "hessian:structure", "hessian:linear", "hessian:symmetric",
            "ggn=hessian", "hvp", "hessian:saturated"]

KINDS = ["affine", "features", "mlp", "poly", "scaled", "conv", "partial"]


def problem(ctx, losses, **kw):
    kw.setdefault("kinds", KINDS)
    return gen.make_problem(ctx, losses, smooth_only=True, small=True, scale=0.6, **kw)


def judge(ctx, mv, pb, H, factor):
    sc = np.linalg.norm(H, 2)
    J = max(np.linalg.norm(pb.model.jac(x), 2) ** 2 for x in pb.X) * factor * pb.N
    floor = 1e-2 * max(sc, J) if ctx.x64 else 0.3 * max(sc, J)
    tol = 1e-7 if ctx.x64 else 1e-3
    if ctx.flip(0.8):
        mv = jax.jit(mv)
    vecs, outs = common.watch_product(ctx, "hessian", mv, H, pb.model.ps, tol=tol,
                                      floor=floor)
    common.algebra(ctx, "hessian", mv, vecs, outs, pb.model.ps, max(sc, J), tol=tol)


def family_batched(ctx):
    pb = problem(ctx, [*gen.LOSSES_VEC, "cross_entropy", "binary_cross_entropy"],
                 n=ctx.choice(1, 2, 3, 4))
    kw, factor = counts(ctx, pb.N)
    if ctx.flip(0.3):
        kw["vmap_over_data"] = True
    mv = ctx.call("create_hessian_mv", create_hessian_mv, pb.model_fn, pb.params,
                  dict(pb.data), pb.loss.lib, **kw)
    judge(ctx, mv, pb, factor * pb.hess_fd(), factor)


def family_unbatched(ctx):
    """One datum without batch axis, or a model that handles the batch itself."""
    whole = ctx.flip()
    ctx.desc(whole=whole)
    if whole:
        pb = problem(ctx, gen.LOSSES_VEC, n=ctx.choice(1, 2, 3))
        f = pb.model_fn
        model_fn = lambda input, params: jax.vmap(lambda x: f(input=x, params=params))(input)  # noqa: E731, A002
        data, n = pb.data, pb.N
    else:
        pb = problem(ctx, gen.LOSSES_VEC, n=1)
        model_fn = pb.model_fn
        data = {k: v[0] for k, v in pb.data.items()}
        n = pb.X[0].shape[0] if pb.X[0].ndim else None
    kw, factor = counts(ctx, n or 1)
    if n is None:
        kw["num_curv_samples"] = kw.get("num_curv_samples", 1)
        factor = kw.get("num_total_samples", kw["num_curv_samples"]) / kw["num_curv_samples"]
    mv = ctx.call("create_hessian_mv", create_hessian_mv, model_fn, pb.params, data,
                  loss_fn=pb.loss.lib, vmap_over_data=False, **kw)
    judge(ctx, mv, pb, factor * pb.hess_fd(), factor)


def family_linear_model(ctx):
    """For a model linear in its parameters both curvatures are the same operator."""
    pb = gen.make_problem(ctx, gen.LOSSES_VEC, linear=True,
                          n=ctx.choice(1, 2, 3, 5, 8, 8, 40))
    kw, factor = counts(ctx, pb.N)
    kw.pop("vmap_over_data", None)
    h = ctx.call("create_hessian_mv", create_hessian_mv, pb.model_fn, pb.params, pb.data,
                 pb.loss.lib, **kw)
    g = ctx.call("create_ggn_mv", create_ggn_mv, pb.model_fn, pb.params, pb.data,
                 pb.loss.lib, **kw)
    G = factor * pb.ggn()
    sc = factor * sum(np.linalg.norm(pb.model.jac(x), 2) ** 2 for x in pb.X)
    ps = pb.model.ps
    h, g = jax.jit(h), jax.jit(g)
    for _ in range(2):
        v = gen.rand_flat(ctx, ps.size)
        a = ps.check_like(ctx, "hessian:structure", ctx.call("hessian", h, ps.to_tree(v)))
        b = ps.check_like(ctx, "ggn:structure", ctx.call("ggn", g, ps.to_tree(v)))
        fl = sc * np.linalg.norm(v) * (1e-6 if ctx.x64 else 3e-2)
        ctx.close("ggn=hessian", a, b, floor=fl)
        ctx.close("hessian", a, G @ v, floor=fl)


def family_without_data(ctx):
    pb = problem(ctx, gen.LOSSES_VEC, n=3)
    factor = ctx.choice(1, 1.0, 0.25, 13.0, 1e4)
    op = ctx.call("create_hessian_mv_without_data", create_hessian_mv_without_data,
                  pb.model_fn, pb.params, pb.loss.lib, factor)
    if ctx.flip(0.7):
        op = jax.jit(op)
    for sel in ([0], [0, 1, 2], [2, 1], [0]):
        idx = np.array(sel)
        sub = gen.Problem(pb.model, pb.loss, pb.X[idx], pb.Y[idx])
        H = factor * sub.hess_fd()
        J = max(np.linalg.norm(pb.model.jac(x), 2) ** 2 for x in sub.X) * factor * len(sel)
        batch = {"input": pb.data["input"][idx], "target": pb.data["target"][idx]}
        common.watch_product(ctx, "hessian", lambda v, b=batch: op(v, b), H, pb.model.ps,
                             nvec=1, basis=False, tol=1e-7 if ctx.x64 else 1e-3,
                             floor=max(np.linalg.norm(H, 2), J) * (1e-2 if ctx.x64 else .3))


def family_hvp(ctx):
    """The bare product on scalar functions of pytrees with a known Hessian."""
    ps = gen.make_space(ctx, 12)
    n = ps.size
    A, c = gen.sym(ctx, n), gen.rand_flat(ctx, n, 0.5)
    which = ctx.choice("quartic", "exp", "logsum")
    ctx.desc(fn=which)
    Aj, cj = gen.dev(A), gen.dev(c)
    flat = lambda t: jnp.concatenate([jnp.ravel(x) for x in jax.tree.leaves(t)])  # noqa: E731

    def f(t):
        w = flat(t)
        q = 0.5 * w @ Aj @ w
        if which == "quartic":
            return q + jnp.sum(w ** 4) / 12
        if which == "exp":
            return q + jnp.exp(cj @ w)
        return q + jnp.log(jnp.sum(jnp.exp(w)))
    w = ps.theta
    if which == "quartic":
        H = A + np.diag(w ** 2)
    elif which == "exp":
        H = A + np.exp(c @ w) * np.outer(c, c)
    else:
        p = gen.np_softmax(w)
        H = A + np.diag(p) - np.outer(p, p)
    v = gen.rand_flat(ctx, n)
    res = ctx.call("hvp", hvp, f, ps.tree, ps.to_tree(v))
    got = ps.check_like(ctx, "hvp:structure", res)
    ctx.close("hvp", got, H @ v, floor=1e-2 * np.linalg.norm(H, 2) * np.linalg.norm(v))


def family_saturated(ctx):
    """Confident predictions: the loss is linear in the logits up to a tiny curvature."""
    ce = ctx.flip()
    d, n = ctx.choice(1, 2, 4), ctx.choice(1, 2, 4)
    C = ctx.choice(2, 3, 5) if ce else 1
    r = ctx.rng
    X = gen.f32(r.normal(size=(n, d)))
    W = r.normal(size=(C, d))
    top = np.abs(X @ W.T).max()
    W = gen.f32(W * ctx.choice(8.0, 16.7, 20.0, 40.0, 60.0, 95.0) / top)
    Z = X @ W.T
    ctx.desc(ce=ce, d=d, n=n, C=C, top=float(np.abs(Z).max()))
    X1 = gen.dev(X)
    if ce:
        Y = r.integers(0, C, n)
        P = gen.np_softmax(Z)
        H = sum(np.kron(np.diag(p) - np.outer(p, p), np.outer(x, x))
                for p, x in zip(P, X, strict=True))
        data = {"input": X1, "target": jnp.asarray(Y)}
        loss = ctx.choice("cross_entropy", LossFn.CROSS_ENTROPY)
    else:
        Y = r.integers(0, 2, (n, 1))
        q = gen.np_sigmoid(Z[:, 0])
        q = q * gen.np_sigmoid(-Z[:, 0])
        H = (X * q[:, None]).T @ X
        data = {"input": X1, "target": gen.dev(Y.astype(float))}
        loss = ctx.choice("binary_cross_entropy", LossFn.BINARY_CROSS_ENTROPY)
    ps = gen.ParamSpace(ctx.choice(*gen.STYLES), [W])
    leaf = lambda t: jax.tree.leaves(t)[0]  # noqa: E731

    def model_fn(input, params):  # noqa: A002
        return leaf(params) @ input
    kw, factor = counts(ctx, n)
    mv = ctx.call("create_hessian_mv", create_hessian_mv, model_fn, ps.tree, data, loss, **kw)
    if ctx.flip(0.8):
        mv = jax.jit(mv)
    J = factor * n * np.max(np.sum(X ** 2, 1))
    for _ in range(2):
        v = gen.rand_flat(ctx, W.size)
        got = ps.check_like(ctx, "hessian:structure", ctx.call("hessian", mv, ps.to_tree(v)))
        ctx.close("hessian:saturated", got, factor * H @ v, tol=1e-6 if ctx.x64 else 2e-3,
                  floor=J * np.linalg.norm(v) * (1e-6 if ctx.x64 else 3e-3))
