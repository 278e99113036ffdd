"""Posteriors with a known dense covariance."""

import numpy as np

from vlib import gen
from vlib.gen import dev, f32


def low_rank_parts(ctx, n, rank, hi=1.0):
    """float32-representable U (near-orthonormal), S, and the matrix they stand for.

    U is rounded to float32, so it is orthonormal only to 6e-8; the algebra the library
    uses assumes orthonormality, so the tolerance of checks on it accounts for that."""
    Q, _ = np.linalg.qr(ctx.rng.normal(size=(n, n)))
    S = f32(10 ** ctx.rng.uniform(-1, hi, size=rank))
    if ctx.x64:
        U = Q[:, :rank]
    else:
        U = f32(Q[:, :rank])
    return U, S


def estimate(ctx, n, kind, *, hi=1.0, signed=False):
    """(lib estimate, dense matrix it represents)."""
    from laplax.curv.utils import LowRankTerms

    if kind == "full":
        M = gen.psd(ctx, n, ctx.choice(n, max(1, n // 2)), hi=hi)
        if signed:
            M = M - gen.psd(ctx, n, ctx.choice(n, max(1, n // 2)), hi=0.0)
            M = f32((M + M.T) / 2)
        return dev(M), M
    if kind == "diagonal":
        d = f32(10 ** ctx.rng.uniform(-1, hi, size=n))
        if ctx.flip(0.3):
            d[ctx.int(0, n - 1)] = 0.0
        if signed:
            d = d * np.where(ctx.rng.random(n) < 0.5, -1.0, 1.0)
        return dev(d), np.diag(d)
    r = ctx.choice(1, max(1, n // 2), n)
    U, S = low_rank_parts(ctx, n, r, hi)
    if signed:
        S = S * np.where(ctx.rng.random(r) < 0.5, -1.0, 1.0)
    M = (U * S) @ U.T
    pad = ctx.choice(0, 0, 1, 3)  # breakdown leaves zero vectors with zero weight
    if pad:
        U = np.concatenate([U, np.zeros((n, pad))], 1)
        S = np.r_[S, np.zeros(pad)]
    ctx.desc(rank=r, pad=pad)
    return LowRankTerms(U=dev(U), S=dev(S), scalar=dev(np.float64(0.0))), M


KINDS = ["full", "diagonal", "lanczos", "lobpcg"]


def spell(ctx, kind):
    from laplax.enums import CurvApprox

    return ctx.choice(kind, CurvApprox(kind))


def number(ctx, v):
    """A prior argument as a Python number, numpy scalar or array."""
    t = ctx.choice("py", "py", "np", "jnp")
    if t == "py":
        return int(v) if float(v).is_integer() and ctx.flip() else float(v)
    if t == "np":
        return np.float64(v)
    return dev(np.float64(v))


def prior(ctx, M, cond=None):
    """(lib args, positional scaling list, tau, sigma2, scale) with bounded condition."""
    nM = max(np.linalg.norm(M, 2), 1e-9)
    cond = cond or (1e7 if ctx.x64 else 1e3)
    s2 = ctx.choice(1.0, 1.0, 0.5, 2.0, 1e-3, 30.0)
    lo = max(np.log10(s2 * nM / cond), -4)
    neg = -np.linalg.eigvalsh(M)[0]
    if neg > 1e-6 * nM:  # the prior makes up for negative curvature
        lo = max(lo, np.log10(s2 * neg * ctx.choice(1.2, 2.0)))
    tau = ctx.logunif(lo, max(lo + 1, 3))
    if ctx.flip(0.2):
        tau = max(tau, 1.0)
        tau = float(np.ceil(tau))
    c = ctx.choice(1.0, 1.0, 1.0, 2.0, 1e-2, 50.0)
    args = {"prior_prec": number(ctx, tau)}
    if s2 != 1.0 or ctx.flip(0.2):
        args["sigma_squared"] = number(ctx, s2)
        s2 = float(args["sigma_squared"])
    tau = float(args["prior_prec"])
    extra = {} if c == 1.0 and ctx.flip() else {"loss_scaling_factor": number(ctx, c)}
    if extra:
        c = float(extra["loss_scaling_factor"])
    return args, extra, tau, s2, c


def covariance(M, tau, s2, c):
    return c * np.linalg.inv(s2 * M + tau * np.eye(len(M)))


def cov_tol(ctx, M, tau, s2):
    k = np.linalg.cond(s2 * M + tau * np.eye(len(M)))
    return max(1e-9, 1e-13 * k) if ctx.x64 else max(2e-5, 3e-6 * k)


class Post:
    """A posterior over a parameter space with its dense covariance."""

    def __init__(self, ctx, ps, kind=None, cond=None, hi=1.0):
        from laplax.curv.cov import set_posterior_fn

        self.kind = kind or ctx.choice(*KINDS)
        self.est, self.M = estimate(ctx, ps.size, self.kind, hi=hi)
        self.args, self.extra, self.tau, self.s2, self.c = prior(ctx, self.M, cond)
        self.fn = ctx.call("set_posterior_fn", set_posterior_fn, spell(ctx, self.kind),
                           self.est, layout=ps.tree)
        self.cov = covariance(self.M, self.tau, self.s2, self.c)
        self.tol = cov_tol(ctx, self.M, self.tau, self.s2)
        ctx.desc(curv=self.kind, tau=self.tau, s2=self.s2, c=self.c)

    def realize(self, ctx):
        return ctx.call("posterior_fn", self.fn, dict(self.args), **self.extra)


