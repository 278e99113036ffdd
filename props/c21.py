"""C21: the posterior GP kernel is the consistent covariance between inputs."""

import jax
import jax.numpy as jnp
import numpy as np

from laplax.api import laplace
from laplax.eval import pushforward as pf
from vlib import common, gen, post
from vlib.core import to_np
from vlib.gen import dev

RULE = ("cases with distinct (family, precision, model, parameter structure, posterior, input "
        "pair or set, form of the kernel) whose kernel was compared with J Sigma J^T")
FAMILIES = {
    "product": (30, 1500),
    "dense": (30, 1500),
    "gram": (24, 900),
    "states": (18, 600),
    "pipeline": (18, 500),
    "reject": (24, 700),
}
REQUIRED = ["product", "linear", "swap", "predictive", "dense", "dense-swap", "gram",
            "gram-psd", "state-selects", "rejected", "arguments-untouched", "jit-vmap"]


def setup(ctx, **mk):
    m = gen.make_model(ctx, small=True, **mk)
    p = post.Post(ctx, m.ps, cond=1e4 if ctx.x64 else 1e2)
    return m, p


def kernel(ctx, m, p, args=None, **kw):
    snap = common.snapshot([m.params, p.args, kw.get("output_layout")])
    k, state = ctx.call(
        "set_posterior_gp_kernel", pf.set_posterior_gp_kernel, model_fn=m.model_fn,
        mean=m.params, posterior_fn=p.fn, prior_arguments=args or p.args, **p.extra, **kw)
    ctx.true("arguments-untouched",
             common.snapshot([m.params, p.args, kw.get("output_layout")]) == snap)
    return k, state


class Pair:
    def __init__(self, m, cov, x1, x2):
        self.J1, self.J2 = m.jac(x1), m.jac(x2)
        self.K = self.J1 @ cov @ self.J2.T
        n1, n2 = np.linalg.norm(self.J1, 2), np.linalg.norm(self.J2, 2)
        self.scale = max(n1 * n2 * np.linalg.norm(cov, 2), 1e-30)


def inputs(ctx, m):
    xs = gen.make_inputs(ctx, m, 2)
    how = ctx.choice("distinct", "distinct", "equal", "opposite", "zero")
    if how == "equal":
        xs[1] = xs[0]
    elif how == "opposite":
        xs[1] = -xs[0]
    elif how == "zero":
        xs[1] = 0 * xs[1]
    ctx.desc(pair=how)
    return xs


def lin_cov(ctx, m, p, x):
    """The linearized predictive covariance, from the library."""
    pred = ctx.call("set_lin_pushforward", pf.set_lin_pushforward, model_fn=m.model_fn,
                    mean_params=m.params, posterior_fn=p.fn, prior_arguments=p.args,
                    pushforward_fns=[pf.lin_setup, pf.lin_pred_mean, pf.lin_pred_cov],
                    **p.extra)
    c = ctx.field("predictive", ctx.call("predictive", pred, dev(x)), "pred_cov")
    return to_np(c).reshape(m.C, m.C)


def family_product(ctx):
    m, p = setup(ctx)
    k, st = kernel(ctx, m, p, **ctx.choice({}, {}, {"dense": False}, {"output_layout": m.C}))
    x1, x2 = inputs(ctx, m)
    pr = Pair(m, p.cov, x1, x2)
    shape = m.out_shape
    mv = k
    tol = 4 * p.tol

    def prod(v, a, b):
        out = ctx.call("kernel_mv", mv, dev(v.reshape(shape)), dev(a), dev(b), st)
        ctx.true("product", np.shape(out) == tuple(shape), got=np.shape(out), want=shape)
        return to_np(out).reshape(-1)
    u, v = gen.rand_flat(ctx, m.C), gen.rand_flat(ctx, m.C)
    n = max(np.linalg.norm(u), np.linalg.norm(v), 1.0)
    Kv = prod(v, x1, x2)
    ctx.close("product", Kv, pr.K @ v, tol=tol, floor=pr.scale * n)
    Ku = prod(u, x1, x2)
    w = np.asarray(np.float32(0.5 * u - 2 * v), float)
    ctx.close("linear", prod(w, x1, x2), 0.5 * Ku - 2 * Kv, tol=2 * tol + 1e-6,
              floor=4 * pr.scale * n)
    Ktu = prod(u, x2, x1)
    ctx.close("swap", np.array([u @ Kv]), np.array([v @ Ktu]), tol=2 * tol,
              floor=pr.scale * n * n)
    ctx.close("product", Ktu, pr.K.T @ u, tol=tol, floor=pr.scale * n)
    # on equal inputs it is the predictive covariance
    C = lin_cov(ctx, m, p, x1)
    same = Pair(m, p.cov, x1, x1)
    K11v = prod(v, x1, x1)
    ctx.close("predictive", K11v, C @ v, tol=2 * tol, floor=same.scale * n)
    ctx.true("predictive", v @ K11v >= -tol * same.scale * n * n, got=v @ K11v)


def layout_of(ctx, m):
    if len(m.out_shape) == 1:
        return ctx.choice(m.C, m.C, jnp.zeros(m.out_shape))
    return ctx.choice(m.C, jnp.zeros(m.out_shape)) if m.out_shape else 1


def as_matrix(K, m):
    """Several output axes come out reversed, with the basis vectors last."""
    return to_np(K).T.reshape(m.C, m.C).T


def family_dense(ctx):
    m, p = setup(ctx, out=ctx.choice("vec", "vec", "scalar", (2, 2), (2, 3)))
    lay = layout_of(ctx, m)
    ctx.desc(out=m.out_shape, layout="int" if isinstance(lay, int) else "array")
    k, _ = kernel(ctx, m, p, dense=True, output_layout=lay)
    x1, x2 = inputs(ctx, m)
    pr = Pair(m, p.cov, x1, x2)
    f = jax.jit(k) if ctx.flip() else k
    d1, d2 = dev(x1), dev(x2)
    if np.array_equal(x1, x2) and ctx.flip():
        d2 = d1  # the very same array
    K = to_np(ctx.call("dense", f, d1, d2))
    tol = 4 * p.tol
    if len(m.out_shape) == 1:
        ctx.true("dense", K.shape == (m.C, m.C), got=K.shape, want=(m.C, m.C))
    ctx.close("dense", as_matrix(K, m), pr.K, tol=tol, floor=pr.scale)
    Kt = as_matrix(ctx.call("dense", f, d2, d1), m)
    ctx.close("dense-swap", Kt, as_matrix(K, m).T, tol=2 * tol, floor=pr.scale)
    C = lin_cov(ctx, m, p, x1)
    same = ctx.call("dense", f, d1, d1 if ctx.flip() else dev(x1))
    ctx.true("dense", np.shape(same) == K.shape, got=np.shape(same), want=K.shape)
    K11 = as_matrix(same, m)
    ctx.close("predictive", K11, C, tol=2 * tol, floor=Pair(m, p.cov, x1, x1).scale)


def family_gram(ctx):
    m, p = setup(ctx, out=ctx.choice("vec", "vec", "scalar"))
    k, _ = kernel(ctx, m, p, dense=True, output_layout=layout_of(ctx, m))
    N = ctx.choice(2, 3, 5)
    X = gen.make_inputs(ctx, m, N)
    if ctx.flip(0.3):
        X[-1] = X[0]  # a repeated input
    J = np.concatenate([m.jac(x) for x in X])
    want = J @ p.cov @ J.T
    scale = max(np.linalg.norm(J, 2) ** 2 * np.linalg.norm(p.cov, 2), 1e-30)
    how = ctx.choice("vmap", "jit-vmap", "loop")
    ctx.desc(N=N, how=how)
    Xd = dev(X)
    if how == "loop":
        B = np.array([[to_np(ctx.call("dense", k, a, b)).reshape(m.C, m.C) for b in Xd]
                      for a in Xd])
    else:
        g = jax.vmap(lambda a: jax.vmap(lambda b: k(a, b))(Xd))
        B = to_np(ctx.call("gram", jax.jit(g) if how == "jit-vmap" else g, Xd))
        B = B.reshape(N, N, m.C, m.C)
        ctx._seen("jit-vmap")
    G = B.transpose(0, 2, 1, 3).reshape(N * m.C, N * m.C)
    tol = 4 * p.tol
    ctx.close("gram", G, want, tol=tol, floor=scale)
    ctx.close("gram", G, G.T, tol=2 * tol, floor=scale)
    low = np.linalg.eigvalsh((G + G.T) / 2).min()
    ctx.true("gram-psd", low >= -4 * tol * scale * N, low=low, scale=scale)
    for i in range(N):
        C = lin_cov(ctx, m, p, X[i]) if i == 0 else want[i * m.C:(i + 1) * m.C,
                                                         i * m.C:(i + 1) * m.C]
        ctx.close("predictive", B[i, i], C, tol=2 * tol, floor=scale)


def family_states(ctx):
    """The distribution state handed in decides which posterior the product uses."""
    m, p = setup(ctx)
    k, st = kernel(ctx, m, p)
    x1, x2 = inputs(ctx, m)
    other = dict(p.args, prior_prec=float(p.tau) * ctx.choice(3.0, 10.0))
    k2, st2 = kernel(ctx, m, p, args=other)
    cov2 = post.covariance(p.M, other["prior_prec"], p.s2, p.c)
    v = gen.rand_flat(ctx, m.C)
    vec = dev(v.reshape(m.out_shape))
    a, b = Pair(m, p.cov, x1, x2), Pair(m, cov2, x1, x2)
    n = max(np.linalg.norm(v), 1.0)
    for fn in (k, k2):
        for s, pr in ((st, a), (st2, b)):
            got = to_np(ctx.call("kernel_mv", fn, vec, dev(x1), dev(x2), s)).reshape(-1)
            ctx.close("state-selects", got, pr.K @ v, tol=4 * p.tol, floor=pr.scale * n)
    # the calls do not depend on each other, or on the order of construction
    got = to_np(ctx.call("kernel_mv", k, vec, dev(x1), dev(x2), st)).reshape(-1)
    ctx.close("state-selects", got, a.K @ v, tol=4 * p.tol, floor=a.scale * n)
    f = jax.jit(lambda w, i, j: k(w, i, j, st))
    got = to_np(ctx.call("jit", f, vec, dev(x1), dev(x2))).reshape(-1)
    ctx.close("jit-vmap", got, a.K @ v, tol=4 * p.tol, floor=a.scale * n)
    V = np.stack([v, 2 * v, -v])
    got = ctx.call("vmap", jax.vmap(lambda w: k(w, dev(x1), dev(x2), st)),
                   dev(V.reshape(3, *m.out_shape)))
    ctx.close("jit-vmap", to_np(got).reshape(3, -1), V @ a.K.T, tol=4 * p.tol,
              floor=2 * a.scale * n)


def family_pipeline(ctx):
    """On a posterior fitted by the library itself."""
    pr = gen.make_problem(ctx, ["mse", "cross_entropy", "binary_cross_entropy"], small=True,
                          out="vec", n=ctx.choice(2, 4))
    kind = ctx.choice("full", "diagonal")
    fn, _ = ctx.call("laplace", laplace, pr.model_fn, pr.params, pr.data, loss_fn=pr.loss.lib,
                     curv_type=kind)
    G = pr.ggn()
    M = np.diag(np.diag(G)) if kind == "diagonal" else G
    tau = max(ctx.logunif(-1, 1), np.linalg.norm(G, 2) * (1e-4 if ctx.x64 else 1e-2))
    cov = np.linalg.inv(M + tau * np.eye(pr.P))
    m = pr.model
    ctx.desc(curv=kind, tau=tau)
    k, _ = ctx.call("set_posterior_gp_kernel", pf.set_posterior_gp_kernel, m.model_fn, m.params,
                    fn, {"prior_prec": tau}, dense=True, output_layout=m.C)
    x1, x2 = inputs(ctx, m)
    p = Pair(m, cov, x1, x2)
    tol = (1e-8 if ctx.x64 else 2e-4) * (1 + (0 if ctx.x64 else np.linalg.norm(G, 2) / tau))
    K = to_np(ctx.call("dense", k, dev(x1), dev(x2)))
    ctx.close("dense", K, p.K, tol=tol, floor=p.scale)
    ctx.close("dense-swap", to_np(ctx.call("dense", k, dev(x2), dev(x1))), K.T, tol=tol,
              floor=p.scale)


def family_reject(ctx):
    m, p = setup(ctx)
    kw = ctx.choice({}, {"output_layout": None}, {"key": ctx.key()}, {"num": 3})
    ctx.desc(kw=sorted(kw))
    snap = common.snapshot([m.params, p.args])

    def ask():
        return pf.set_posterior_gp_kernel(
            model_fn=m.model_fn, mean=m.params, posterior_fn=p.fn, prior_arguments=p.args,
            dense=True, **kw, **p.extra)
    ctx.raises("rejected", ask, ValueError)
    ctx.true("arguments-untouched", common.snapshot([m.params, p.args]) == snap)
    # the same request without `dense` is fine
    k, st = kernel(ctx, m, p)
    x1, x2 = inputs(ctx, m)
    pr = Pair(m, p.cov, x1, x2)
    v = gen.rand_flat(ctx, m.C)
    got = ctx.call("kernel_mv", k, dev(v.reshape(m.out_shape)), dev(x1), dev(x2), st)
    ctx.close("product", to_np(got).reshape(-1), pr.K @ v, tol=4 * p.tol,
              floor=pr.scale * max(1, np.linalg.norm(v)))
