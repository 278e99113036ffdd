"""C11: the marginal log-likelihood is the Laplace evidence."""

import jax
import numpy as np

from laplax.api import laplace
from laplax.curv.cov import CURVATURE_PRECISION_METHODS
from laplax.eval import likelihood as lk
from vlib import common, gen, post
from vlib.core import to_np
from vlib.gen import dev

RULE = ("cases with distinct (family, precision, model, loss, data, curvature type, prior "
        "precision, noise, scaling) whose evidence was compared with the closed form")
FAMILIES = {
    "value": (88, 2200),
    "pipeline": (24, 500),
    "representations": (32, 800),
    "joint": (40, 900),
    "parts": (40, 900),
}
REQUIRED = ["evidence", "finite-scalar", "same-for-representations", "joint", "part",
            "arguments-untouched"]
LOSSES = ["mse", "cross_entropy", "binary_cross_entropy", "huber", "poisson"]


def joint_oracle(pr, tau, sigma):
    th, P = pr.model.ps.theta, pr.P
    ll = -pr.loss_sum() / (2 * sigma)
    lp = -0.5 * tau * float(th @ th) - 0.5 * P * (np.log(2 * np.pi) - np.log(tau))
    size = abs(ll) + 0.5 * tau * float(th @ th) + abs(lp)
    return ll + lp, size


def evidence(pr, M, tau, s2, c, sigma):
    P = pr.P
    j, size = joint_oracle(pr, tau, sigma)
    A = (s2 * M + tau * np.eye(P)) / c
    ld = np.linalg.slogdet(A)[1]
    ev = np.linalg.eigvalsh(A)
    size += 0.5 * P * np.log(2 * np.pi) + 0.5 * np.abs(np.log(np.abs(ev))).sum()
    return j + 0.5 * P * np.log(2 * np.pi) - 0.5 * ld, size


def near(ctx, name, got, want, size, M, tau, s2, P, extra=0.0, **info):
    g = to_np(got)
    ctx.true("finite-scalar", g.shape == () and np.isfinite(g), got=g, **info)
    atol = (1e-9 if ctx.x64 else 2e-5) * (1 + size) + P * (post.cov_tol(ctx, M, tau, s2) + extra)
    ctx.true(name, g.size == 1 and abs(float(g.reshape(-1)[0]) - want) <= atol, got=g, want=want,
             atol=atol, **info)


def forms(pr, ctx):
    """How the model and the data may be handed over."""
    how = ctx.choice("vmap", "vmap", "batched", "single" if pr.N == 1 else "vmap")
    ctx.desc(how=how)
    m = pr.model
    if how == "batched":
        def model_fn(input, params):  # noqa: A002
            return jax.vmap(lambda x: m.model_fn(x, params))(input)
        return model_fn, pr.data, ctx.choice({}, {"vmap_over_data": False})
    if how == "single":
        return m.model_fn, jax.tree.map(lambda x: x[0], pr.data), {}
    return m.model_fn, pr.data, {"vmap_over_data": True}


def args_with_sigma(ctx, M, cond=None):
    args, extra, tau, s2, c = post.prior(ctx, M, cond)
    sigma = 1.0
    if ctx.flip(0.4):
        sigma = ctx.choice(0.5, 2.0, 10.0, 1.0)
        args["sigma"] = sigma
    ctx.desc(tau=tau, s2=s2, c=c, sigma=sigma)
    return args, extra, tau, s2, c, sigma


def family_value(ctx):
    pr = gen.make_problem(ctx, LOSSES, small=True)
    kind = ctx.choice(*post.KINDS)
    signed = ctx.flip(0.3)  # indefinite, made up for by the prior
    est, M = post.estimate(ctx, pr.P, kind, signed=signed)
    ctx.desc(signed=signed)
    args, extra, tau, s2, c, sigma = args_with_sigma(ctx, M)
    ctx.desc(curv=kind)
    model_fn, data, kw = forms(pr, ctx)
    snap = common.snapshot([est, args, data, pr.params])
    want, size = evidence(pr, M, tau, s2, c, sigma)

    def call(a):
        return lk.marginal_log_likelihood(
            est, a, data, model_fn, pr.params, pr.loss.lib, post.spell(ctx, kind), **extra, **kw)
    fn = jax.jit(call) if ctx.flip(0.4) else call
    got = ctx.call("marginal_log_likelihood", fn, args)
    near(ctx, "evidence", got, want, size, M, tau, s2, pr.P)
    ctx.true("arguments-untouched", common.snapshot([est, args, data, pr.params]) == snap)


def family_pipeline(ctx):
    """The estimate comes from the model, data and loss themselves."""
    pr = gen.make_problem(ctx, ["mse", "cross_entropy", "binary_cross_entropy"], small=True,
                          out="vec", n=ctx.choice(2, 4))
    kind = ctx.choice("full", "diagonal", "lanczos")
    G = pr.ggn()
    M = np.diag(np.diag(G)) if kind == "diagonal" else G
    kw = {"rank": pr.P, "key": ctx.key()} if kind == "lanczos" else {}
    _, est = ctx.call("laplace", laplace, pr.model_fn, pr.params, pr.data,
                      loss_fn=pr.loss.lib, curv_type=kind, **kw)
    if kind == "lanczos":  # what it found (repeated eigenvalues appear once, see C05)
        M = (to_np(est.U) * to_np(est.S)) @ to_np(est.U).T
    args, extra, tau, s2, c, sigma = args_with_sigma(ctx, M, 1e4 if ctx.x64 else 1e2)
    ctx.desc(curv=kind)
    want, size = evidence(pr, M, tau, s2, c, sigma)
    got = ctx.call("marginal_log_likelihood", lk.marginal_log_likelihood, est, args, pr.data,
                   pr.model_fn, pr.params, pr.loss.lib, kind, vmap_over_data=True, **extra)
    near(ctx, "evidence", got, want, size, M, tau, s2, pr.P,
         extra=1e-5 if ctx.x64 and kind == "lanczos" else 0 if ctx.x64 else 1e-2)


def family_representations(ctx):
    from laplax.curv.utils import LowRankTerms

    pr = gen.make_problem(ctx, LOSSES, small=True)
    n = pr.P
    U, S = post.low_rank_parts(ctx, n, n)
    if ctx.flip(0.3):  # indefinite
        S = S * np.where(ctx.rng.random(n) < 0.5, -1.0, 1.0)
        ctx.desc(signed=True)
    diag = ctx.flip()
    if diag:
        U = np.eye(n)[:, ctx.rng.permutation(n)]
    M = (U * S) @ U.T
    lr = LowRankTerms(U=dev(U), S=dev(S), scalar=dev(np.float64(0)))
    est = {"full": dev(M), "lanczos": lr, "lobpcg": lr}
    if diag:
        est["diagonal"] = dev(np.diag(M))
    args, extra, tau, s2, c, sigma = args_with_sigma(ctx, M, 1e4 if ctx.x64 else 1e2)
    ctx.desc(diag=diag)
    want, size = evidence(pr, M, tau, s2, c, sigma)
    model_fn, data, kw = forms(pr, ctx)
    for kind, e in est.items():
        got = ctx.call("marginal_log_likelihood", lk.marginal_log_likelihood, e, args, data,
                       model_fn, pr.params, pr.loss.lib, kind, **extra, **kw)
        near(ctx, "same-for-representations", got, want, size, M, tau, s2, n,
             extra=1e-9 if ctx.x64 else 1e-5, kind=kind)


def full_fn_of(pr, ctx):
    """A summed loss of the caller's own."""
    from laplax.curv.utils import concatenate_model_and_loss_fn

    return concatenate_model_and_loss_fn(pr.model_fn, pr.loss.lib, vmap_over_data=True)


def family_joint(ctx):
    pr = gen.make_problem(ctx, LOSSES, small=True)
    tau = ctx.logunif(-3, 3)
    sigma = ctx.choice(1.0, 0.25, 4.0)
    args = {"prior_prec": post.number(ctx, tau)}
    if sigma != 1.0:
        args["sigma"] = sigma
    ctx.desc(tau=tau, sigma=sigma)
    want, size = joint_oracle(pr, tau, sigma)
    got = ctx.call("joint_log_likelihood", lk.joint_log_likelihood, full_fn_of(pr, ctx), args,
                   pr.params, pr.data)
    near(ctx, "joint", got, want, size, np.zeros((1, 1)), tau, 1.0, 1)


def family_parts(ctx):
    """The per-type functions on a given precision."""
    pr = gen.make_problem(ctx, LOSSES, small=True)
    kind = ctx.choice(*post.KINDS)
    signed = ctx.flip(0.3)  # indefinite, made up for by the prior
    est, M = post.estimate(ctx, pr.P, kind, signed=signed)
    ctx.desc(signed=signed)
    args, extra, tau, s2, c, sigma = args_with_sigma(ctx, M)
    ctx.desc(curv=kind)
    prec = ctx.call("curvature_to_precision", CURVATURE_PRECISION_METHODS[kind], est, args,
                    **extra)
    fn = {"full": lk.full_marginal_log_likelihood,
          "diagonal": lk.diagonal_marginal_log_likelihood,
          "lanczos": lk.low_rank_marginal_log_likelihood,
          "lobpcg": lk.low_rank_marginal_log_likelihood}[kind]
    want, size = evidence(pr, M, tau, s2, c, sigma)
    got = ctx.call("type-specific", fn, prec, args, full_fn_of(pr, ctx), pr.params, pr.data)
    near(ctx, "part", got, want, size, M, tau, s2, pr.P, kind=kind)
