"""C01: GGN products are exactly factor * sum J^T H J v."""

import jax
import jax.numpy as jnp
import numpy as np

from laplax.curv.ggn import (
    create_ggn_mv,
    create_ggn_mv_without_data,
    create_loss_hessian_mv,
)
from vlib import common, gen

RULE = ("cases with distinct (family, precision, model, container, shapes, loss, batch, "
        "factor) whose products were compared with a dense float64 J^T H J")
FAMILIES = {
    "batched": (150, 2500),
    "unbatched": (48, 700),
    "explicit": (32, 500),
    "without_data": (32, 500),
    "loss_hessian": (64, 1000),
    "frameworks": (12, 150),
    "large": (8, 120),
}
REQUIRED = ["ggn", "ggn:structure", "ggn:linear", "ggn:symmetric", "ggn:psd",
            "loss_hessian_mv"]


def counts(ctx, n):
    """(kwargs, factor) for the sample counts."""
    mode = ctx.choice("none", "none", "total", "curv", "both", "both", "floats", "less")
    ctx.desc(counts=mode)
    if mode == "none":
        return {}, 1.0
    if mode == "total":
        t = ctx.choice(1, 7, 1000, 50000)
        return {"num_total_samples": t}, t / n
    if mode == "curv":  # total defaults to the curvature count
        return {"num_curv_samples": ctx.choice(1, 3, 17)}, 1.0
    if mode == "both":
        c, t = ctx.choice(1, 3, 7, 256), ctx.choice(1, 10, 999, 60000)
        return {"num_curv_samples": c, "num_total_samples": t}, t / c
    if mode == "floats":
        c, t = 0.5, 2.25
        return {"num_curv_samples": c, "num_total_samples": t}, t / c
    c, t = np.int64(12), np.int64(4)
    return {"num_curv_samples": c, "num_total_samples": t}, 4 / 12


def scale_of(ctx, pb, factor, sel=None):
    s = sum(np.linalg.norm(pb.model.jac(x), 2) ** 2 for x in pb.X)
    return factor * s


def judge(ctx, mv, pb, G, factor, convex=True):
    sc = scale_of(ctx, pb, factor)
    floor = sc * (1e-6 if ctx.x64 else 3e-2)
    if ctx.flip(0.8):  # mostly one trace for all products, sometimes eager
        mv = jax.jit(mv)
    vecs, outs = common.watch_product(ctx, "ggn", mv, G, pb.model.ps, floor=floor)
    common.algebra(ctx, "ggn", mv, vecs, outs, pb.model.ps, sc, convex=convex)


def family_batched(ctx):
    pb = gen.make_problem(ctx, [*gen.LOSSES_SAMPLE, "none", "cross_entropy"])
    kw, factor = counts(ctx, pb.N)
    if pb.loss.name == "none":
        kw["loss_fn"] = pb.loss.lib
    else:
        kw["loss_fn"] = pb.loss.lib
    if ctx.flip(0.3):
        kw["vmap_over_data"] = True
    data = dict(pb.data)
    mv = ctx.call("create_ggn_mv", create_ggn_mv, pb.model_fn, pb.params, data, **kw)
    judge(ctx, mv, pb, factor * pb.ggn(), factor, pb.loss.convex)


def family_unbatched(ctx):
    """vmap_over_data=False: either one datum without batch axis, or a model that
    handles the batch itself."""
    whole = ctx.flip(0.5)
    ctx.desc(whole=whole)
    if whole:
        losses = ["mse", "binary_cross_entropy", "huber", "poisson", "cosine", "none"]
        pb = gen.make_problem(ctx, losses)
        f = pb.model_fn
        model_fn = lambda input, params: jax.vmap(lambda x: f(input=x, params=params))(input)  # noqa: E731, A002
        data, n = pb.data, pb.N
    else:
        pb = gen.make_problem(ctx, [*gen.LOSSES_SAMPLE, "none"], n=1)
        model_fn = pb.model_fn
        data = {k: v[0] for k, v in pb.data.items()}
        n = pb.X[0].shape[0] if pb.X[0].ndim else None
    kw, factor = counts(ctx, n or 1)
    if n is None:
        kw["num_curv_samples"] = kw.get("num_curv_samples", 1)
        factor = kw.get("num_total_samples", kw["num_curv_samples"]) / kw["num_curv_samples"]
    mv = ctx.call("create_ggn_mv", create_ggn_mv, model_fn, pb.params, data, pb.loss.lib,
                  vmap_over_data=False, **kw)
    judge(ctx, mv, pb, factor * pb.ggn(), factor, pb.loss.convex)


def family_explicit(ctx):
    """A supplied loss-Hessian product replaces the loss's own; it sees prediction and
    target of the sample it is applied to."""
    pb = gen.make_problem(ctx, ["mse"])
    C = pb.model.C
    B = gen.f32(ctx.rng.normal(size=(C, C)))
    A = gen.f32(B @ B.T)
    Aj = gen.dev(A)
    mode = ctx.choice("const", "pred", "target", "both")
    ctx.desc(hmode=mode)

    def weight(xp, pred, target):
        w = 1.0
        if mode in {"pred", "both"}:
            w = w + xp.sum(pred) ** 2
        if mode in {"target", "both"}:
            w = w + xp.sum(target * target)
        return w

    def hmv(jv, pred, target, **kwargs):
        return weight(jnp, pred, target) * (Aj @ jv.reshape(-1)).reshape(jv.shape)

    batched_inside = ctx.flip(0.25)
    ctx.desc(batched_inside=batched_inside)
    kw, factor = counts(ctx, pb.N)
    if batched_inside:
        f = pb.model_fn
        model_fn = lambda input, params: jax.vmap(lambda x: f(input=x, params=params))(input)  # noqa: E731, A002
        mv = ctx.call("create_ggn_mv", create_ggn_mv, model_fn, pb.params, pb.data,
                      loss_hessian_mv=jax.vmap(hmv), vmap_over_data=False, **kw)
    else:
        mv = ctx.call("create_ggn_mv", create_ggn_mv, pb.model_fn, pb.params, pb.data,
                      loss_hessian_mv=hmv, **kw)
    G = np.zeros((pb.P, pb.P))
    for x, y in zip(pb.X, pb.Y, strict=True):
        J = pb.model.jac(x)
        G += J.T @ (weight(np, pb.model.out(x), y) * A) @ J
    ps = pb.model.ps
    sc = np.linalg.norm(G, 2) * factor
    if ctx.flip(0.7):
        mv = jax.jit(mv)
    vecs, outs = common.watch_product(ctx, "ggn", mv, factor * G, ps, floor=1e-2 * sc)
    common.algebra(ctx, "ggn", mv, vecs, outs, ps, sc, convex=True)


def family_without_data(ctx):
    """One operator, several batches: no state is carried between them."""
    pb = gen.make_problem(ctx, gen.LOSSES_SAMPLE, n=ctx.choice(3, 4, 6))
    factor = ctx.choice(1, 1.0, 0.25, 13.0, 1e4)
    pos = ctx.flip()
    args = (pb.model_fn, pb.params, pb.loss.lib, factor)
    if pos:
        op = ctx.call("create_ggn_mv_without_data", create_ggn_mv_without_data, *args)
    else:
        op = ctx.call("create_ggn_mv_without_data", create_ggn_mv_without_data,
                      model_fn=args[0], params=args[1], loss_fn=args[2], factor=args[3],
                      vmap_over_data=True)
    sc = scale_of(ctx, pb, factor)
    floor = sc * (1e-6 if ctx.x64 else 3e-2)
    if ctx.flip(0.7):
        op = jax.jit(op)
    order = [[0], list(range(pb.N)), list(range(1, pb.N)), [0]]
    for sel in order:
        idx = np.array(sel)
        batch = {"input": pb.data["input"][idx], "target": pb.data["target"][idx]}
        G = factor * pb.ggn(sel)
        common.watch_product(ctx, "ggn", lambda v, b=batch: op(v, b), G, pb.model.ps,
                             nvec=1, basis=False, floor=floor)


def family_loss_hessian(ctx):
    """The loss-Hessian product itself, with extreme predictions."""
    name = ctx.choice("mse", "cross_entropy", "binary_cross_entropy", "huber", "poisson",
                      "cosine", "coupled", "none")
    if name == "cross_entropy":
        shape = (ctx.choice(1, 2, 3, 10, 100),)
    else:
        shape = ctx.choice((), (1,), (3,), (2, 3), (10,))
    mag = ctx.choice(0.1, 1.0, 1.0, 10.0, 30.0)
    if name == "poisson":
        mag = min(mag, 1.0)
    pred = gen.f32(mag * ctx.rng.normal(size=shape))
    if ctx.flip(0.2):
        pred = gen.f32(np.zeros(shape))
    loss = gen.make_loss(ctx, name)
    ctx.desc(loss=name, shape=list(shape), mag=mag)
    target = gen.make_targets(ctx, name, pred[None])[0]
    jv = gen.f32(ctx.rng.normal(size=shape))
    op = ctx.call("create_loss_hessian_mv", create_loss_hessian_mv, loss.lib)
    got = ctx.call("loss_hessian_mv", op, gen.dev(jv), pred=gen.dev(pred),
                   target=gen.dev(np.asarray(target)))
    H = loss.hess(pred, target)
    want = (H @ jv.reshape(-1)).reshape(shape)
    ctx.close("loss_hessian_mv", got, want, floor=(1e-6 if ctx.x64 else 1e-2) *
              np.linalg.norm(jv))
    if ctx.flip(0.3):  # what the product needs is a function of the prediction only
        op2 = jax.jit(lambda a, b, c: op(a, pred=b, target=c))
        got2 = ctx.call("loss_hessian_mv", op2, gen.dev(jv), gen.dev(pred),
                        gen.dev(np.asarray(target)))
        ctx.close("loss_hessian_mv:jit", got2, want, floor=(1e-6 if ctx.x64 else 1e-2) *
                  np.linalg.norm(jv))


def family_frameworks(ctx):
    """Parameters owned by flax / equinox modules."""
    which = ctx.choice("nnx", "linen", "equinox")
    d, h, C = ctx.choice(1, 3), ctx.choice(2, 4), ctx.choice(1, 3)
    ctx.desc(framework=which, dims=[d, h, C])
    rng = ctx.rng
    W1, b1, W2, b2 = (gen.f32(rng.normal(size=s)) for s in ((d, h), (h,), (h, C), (C,)))
    N = ctx.choice(1, 4)
    X = gen.f32(rng.normal(size=(N, d)))
    name = ctx.choice("mse", "cross_entropy")
    loss = gen.make_loss(ctx, name)
    ctx.desc(loss=name, N=N)
    tag = {id(W1): "W1"}
    del tag
    if which == "nnx":
        from flax import nnx

        class M(nnx.Module):
            def __init__(self):
                self.zlin = nnx.Linear(d, h, rngs=nnx.Rngs(0))
                self.alin = nnx.Linear(h, C, rngs=nnx.Rngs(0))

            def __call__(self, x):
                return self.alin(jnp.tanh(self.zlin(x)))

        m = M()
        m.zlin.kernel.value, m.zlin.bias.value = gen.dev(W1), gen.dev(b1)
        m.alin.kernel.value, m.alin.bias.value = gen.dev(W2), gen.dev(b2)
        gd, params = nnx.split(m)
        model_fn = lambda input, params: nnx.call((gd, params))(input)[0]  # noqa: E731, A002
    elif which == "linen":
        from flax import linen as nn

        class L(nn.Module):
            @nn.compact
            def __call__(self, x):
                return nn.Dense(C, name="a")(jnp.tanh(nn.Dense(h, name="z")(x)))

        m = L()
        params = {"params": {"z": {"kernel": gen.dev(W1), "bias": gen.dev(b1)},
                             "a": {"kernel": gen.dev(W2), "bias": gen.dev(b2)}}}
        model_fn = lambda input, params: m.apply(params, input)  # noqa: E731, A002
    else:
        import equinox as eqx

        class E(eqx.Module):
            w1: jax.Array
            b1: jax.Array
            w2: jax.Array
            b2: jax.Array
            act: str = eqx.field(static=True)

            def __call__(self, x):
                return jnp.tanh(x @ self.w1 + self.b1) @ self.w2 + self.b2

        params = E(gen.dev(W1), gen.dev(b1), gen.dev(W2), gen.dev(b2), "tanh")
        model_fn = lambda input, params: params(input)  # noqa: E731, A002
    pack = {"W1": W1, "b1": b1, "W2": W2, "b2": b2}
    # Leaf order found by value: each leaf equals exactly one of the arrays.
    order = []
    for leaf in jax.tree.leaves(params):
        k = next(k for k, a in pack.items() if a.shape == leaf.shape
                 and np.array_equal(a, np.asarray(leaf, float)) and k not in order)
        order.append(k)
    theta = np.concatenate([pack[k].reshape(-1) for k in order])

    def out(flat, x):
        q, i = {}, 0
        for k in order:
            q[k] = flat[i:i + pack[k].size].reshape(pack[k].shape)
            i += pack[k].size
        return np.tanh(x @ q["W1"] + q["b1"]) @ q["W2"] + q["b2"]

    preds = np.stack([out(theta, x) for x in X])
    Y = gen.make_targets(ctx, name, preds)
    G = np.zeros((theta.size, theta.size))
    for i in range(N):
        J = np.zeros((C, theta.size))
        for p in range(theta.size):
            z = theta.astype(complex)
            z[p] += 1e-30j
            J[:, p] = np.imag(out(z, X[i])) / 1e-30
        G += J.T @ loss.hess(preds[i], Y[i]) @ J
    mv = ctx.call("create_ggn_mv", create_ggn_mv, model_fn, params,
                  {"input": gen.dev(X), "target": gen.dev(Y)}, loss.lib)
    v = gen.rand_flat(ctx, theta.size)
    leaves, k = [], 0
    for leaf in jax.tree.leaves(params):
        leaves.append(gen.dev(v[k:k + leaf.size].reshape(leaf.shape)))
        k += leaf.size
    vt = jax.tree.unflatten(jax.tree.structure(params), leaves)
    res = ctx.call("ggn", mv, vt)
    ctx.true("ggn:structure", jax.tree.structure(res) == jax.tree.structure(params),
             got=jax.tree.structure(res))
    ctx.close("ggn", gen.tree_flat_np(res), G @ v, floor=1e-2 * np.linalg.norm(G, 2))


def family_large(ctx):
    """Wider models and longer batches."""
    rng = ctx.rng
    d, h, C, N = ctx.choice(8, 16), ctx.choice(8, 12), ctx.choice(3, 10), ctx.choice(32, 65)
    arrays = [rng.normal(size=(d, h)) / np.sqrt(d), rng.normal(size=h),
              rng.normal(size=(h, C)) / np.sqrt(h), rng.normal(size=C)]

    def fn(xp, x, p):
        return xp.tanh(x @ p[0] + p[1]) @ p[2] + p[3]
    m = gen.Model("large", ctx.choice(*gen.STYLES), (d,), (C,), arrays, fn, False)
    ctx.desc(model="large", dims=[d, h, C], style=m.ps.style)
    pb = gen.make_problem(ctx, ["mse", "cross_entropy", "huber"], n=N, model=m)
    kw, factor = counts(ctx, pb.N)
    mv = ctx.call("create_ggn_mv", create_ggn_mv, pb.model_fn, pb.params, pb.data,
                  pb.loss.lib, **kw)
    judge(ctx, mv, pb, factor * pb.ggn(), factor, True)
