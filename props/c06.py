"""C06: posterior covariance and scale from every curvature estimate."""

import jax
import numpy as np

from laplax.curv.cov import create_posterior_fn, set_posterior_fn
from laplax.curv.full import full_prec_to_scale
from laplax.curv.low_rank import create_low_rank_mv, low_rank_square
from laplax.curv.utils import LowRankTerms
from vlib import common, gen, post
from vlib.core import to_np

RULE = ("cases with distinct (family, precision, curvature type, layout, size, prior "
        "precision, noise variance, loss scaling) whose covariance and scale were compared "
        "with the dense inverse")
FAMILIES = {
    "flat": (88, 1500),
    "tree": (72, 1200),
    "from_mv": (32, 500),
    "representations": (40, 600),
    "sequence": (32, 500),
    "parts": (40, 600),
}
REQUIRED = ["covariance", "scale-squared", "structure", "same-for-representations",
            "earlier-unaffected", "arguments-untouched"]


def judge(ctx, p, cov_of, scale_of, n):
    C = common_dense(ctx, cov_of, n)
    S = common_dense(ctx, scale_of, n)
    nc = np.linalg.norm(p.cov, 2)
    ctx.close("covariance", C, p.cov, tol=p.tol, floor=nc)
    ctx.close("scale-squared", S @ S.T, p.cov, tol=4 * p.tol, floor=nc)
    # small covariance directions are hidden by the max norm: check the precision too
    if ctx.x64:
        A = (p.s2 * p.M + p.tau * np.eye(n)) / p.c
        ctx.close("covariance", A @ C, np.eye(n), tol=1e-4 + 1e3 * p.tol, floor=1.0)


def common_dense(ctx, mv, n):
    return np.stack([mv(np.eye(n)[i]) for i in range(n)], 1)


def family_flat(ctx):
    """Integer or absent layout: flat vectors in, flat vectors out."""
    n = ctx.choice(1, 2, 3, 6, 10, 10, 48)
    kind = ctx.choice(*post.KINDS)
    signed = ctx.flip(0.3)
    est, M = post.estimate(ctx, n, kind, hi=ctx.choice(0.5, 2.0), signed=signed)
    layout = ctx.choice(n, None)
    ctx.desc(curv=kind, n=n, layout=str(layout), signed=signed)
    fn = ctx.call("set_posterior_fn", set_posterior_fn, post.spell(ctx, kind), est,
                  layout=layout)
    p = post.Post.__new__(post.Post)
    p.M = M
    p.args, p.extra, p.tau, p.s2, p.c = post.prior(ctx, M)
    ctx.desc(tau=p.tau, s2=p.s2, c=p.c)
    p.cov, p.tol = post.covariance(M, p.tau, p.s2, p.c), post.cov_tol(ctx, M, p.tau, p.s2)
    snap = common.snapshot([p.args, est])
    r = ctx.call("posterior_fn", fn, p.args, **p.extra)
    ctx.true("arguments-untouched", common.snapshot([p.args, est]) == snap)
    cm = ctx.call("cov_mv", r.cov_mv, r.state)
    sm = ctx.call("scale_mv", r.scale_mv, r.state)
    ap = lambda f, nm: (lambda v: to_np(ctx.call(nm, f, gen.dev(v))))  # noqa: E731
    judge(ctx, p, ap(cm, "cov_mv"), ap(sm, "scale_mv"), n)


def family_tree(ctx):
    ps = gen.make_space(ctx, 9, big=0.07)
    p = post.Post(ctx, ps, hi=ctx.choice(0.5, 2.0))
    r = p.realize(ctx)
    state = r.state
    if ctx.flip(0.3):  # the state is a pytree that may travel
        state = jax.tree.map(lambda x: x + 0, state)
    cm = ctx.call("cov_mv", r.cov_mv, state)
    sm = ctx.call("scale_mv", r.scale_mv, state)
    if ctx.flip(0.5):
        cm, sm = jax.jit(cm), jax.jit(sm)

    def ap(f, nm):
        return lambda v: ps.check_like(ctx, "structure", ctx.call(nm, f, ps.to_tree(v)))
    judge(ctx, p, ap(cm, "cov_mv"), ap(sm, "scale_mv"), ps.size)
    u, v = gen.rand_flat(ctx, ps.size), gen.rand_flat(ctx, ps.size)
    a = u @ ap(cm, "cov_mv")(v)
    b = v @ ap(cm, "cov_mv")(u)
    ctx.close("covariance:symmetric", np.array(a), np.array(b), tol=10 * p.tol,
              floor=np.linalg.norm(p.cov, 2) * np.linalg.norm(u) * np.linalg.norm(v))


def family_from_mv(ctx):
    """Estimate and posterior in one call."""
    ps = gen.make_space(ctx, 8)
    n = ps.size
    ev = np.arange(1, n + 1) * ctx.choice(0.5, 3.0)
    Q, _ = np.linalg.qr(ctx.rng.normal(size=(n, n)))
    A = gen.f32((Q * ev) @ Q.T)
    A = gen.f32((A + A.T) / 2)
    kind = ctx.choice("full", "diagonal", "lanczos")
    kw = {"rank": n, "key": ctx.key()} if kind == "lanczos" else {}
    ctx.desc(curv=kind)
    fn = ctx.call("create_posterior_fn", create_posterior_fn, post.spell(ctx, kind),
                  gen.mv_from_dense(A, ps), ps.tree, **kw)
    p = post.Post.__new__(post.Post)
    p.M = np.diag(np.diag(A)) if kind == "diagonal" else A
    p.args, p.extra, p.tau, p.s2, p.c = post.prior(ctx, p.M, 1e3)
    p.cov = post.covariance(p.M, p.tau, p.s2, p.c)
    p.tol = post.cov_tol(ctx, p.M, p.tau, p.s2)
    if kind == "lanczos":
        p.tol = max(p.tol, 1e-6 if ctx.x64 else 1e-2)
    r = ctx.call("posterior_fn", fn, p.args, **p.extra)
    cm = jax.jit(ctx.call("cov_mv", r.cov_mv, r.state))
    sm = jax.jit(ctx.call("scale_mv", r.scale_mv, r.state))

    def ap(f, nm):
        return lambda v: ps.check_like(ctx, "structure", ctx.call(nm, f, ps.to_tree(v)))
    C = common_dense(ctx, ap(cm, "cov_mv"), n)
    S = common_dense(ctx, ap(sm, "scale_mv"), n)
    nc = np.linalg.norm(p.cov, 2)
    ctx.close("covariance", C, p.cov, tol=p.tol, floor=nc)
    ctx.close("scale-squared", S @ S.T, p.cov, tol=4 * p.tol, floor=nc)


def family_representations(ctx):
    """One matrix, several representations, one covariance."""
    n = ctx.choice(1, 2, 4, 7)
    diag = ctx.flip()
    U, S = post.low_rank_parts(ctx, n, n)
    if diag:
        U = np.eye(n)[:, ctx.rng.permutation(n)]
    M = (U * S) @ U.T
    args, extra, tau, s2, c = post.prior(ctx, M, 1e4 if ctx.x64 else 1e2)
    want = post.covariance(M, tau, s2, c)
    tol = 10 * post.cov_tol(ctx, M, tau, s2)
    ctx.desc(n=n, diag=diag, tau=tau, s2=s2, c=c)
    forms = {"full": gen.dev(gen.f32(M) if not ctx.x64 else M),
             "lanczos": LowRankTerms(U=gen.dev(U), S=gen.dev(S), scalar=gen.dev(np.float64(0))),
             "lobpcg": LowRankTerms(U=gen.dev(U), S=gen.dev(S), scalar=gen.dev(np.float64(0)))}
    if diag:
        forms["diagonal"] = gen.dev(np.diag(M))
    v = gen.rand_flat(ctx, n)
    for kind, est in forms.items():
        fn = ctx.call("set_posterior_fn", set_posterior_fn, kind, est, layout=n)
        r = ctx.call("posterior_fn", fn, args, **extra)
        got = ctx.call("cov_mv", r.cov_mv(r.state), gen.dev(v))
        ctx.close("same-for-representations", got, want @ v, tol=tol,
                  floor=np.linalg.norm(want, 2) * np.linalg.norm(v), kind=kind)
        sc = r.scale_mv(r.state)
        B = np.stack([to_np(ctx.call("scale_mv", sc, gen.dev(np.eye(n)[i])))
                      for i in range(n)], 1)
        ctx.close("same-for-representations", B @ B.T, want, tol=tol,
                  floor=np.linalg.norm(want, 2), kind=kind)


def family_sequence(ctx):
    """Interleaved use of one posterior with several prior arguments."""
    ps = gen.make_space(ctx, 6)
    p = post.Post(ctx, ps)
    settings = [(p.args, p.extra, p.cov, p.tol)]
    for _ in range(2):
        a, e, tau, s2, c = post.prior(ctx, p.M)
        settings.append((a, e, post.covariance(p.M, tau, s2, c),
                         post.cov_tol(ctx, p.M, tau, s2)))
    snap = common.snapshot([p.est, [s[0] for s in settings]])
    v = gen.rand_flat(ctx, ps.size)
    first, made = {}, []
    for i in [0, 1, 2, 0, 2, 1, 0]:
        a, e, cov, tol = settings[i]
        r = ctx.call("posterior_fn", p.fn, a, **e)
        got = ps.check_like(ctx, "structure",
                            ctx.call("cov_mv", r.cov_mv(r.state), ps.to_tree(v)))
        ctx.close("covariance", got, cov @ v, tol=tol,
                  floor=np.linalg.norm(cov, 2) * np.linalg.norm(v))
        if i in first:
            ctx.true("earlier-unaffected", np.array_equal(first[i], got), i=i, a=first[i], b=got)
        first.setdefault(i, got)
        made.append((i, r))
    for i, r in made:
        again = ps.check_like(ctx, "structure",
                              ctx.call("cov_mv", r.cov_mv(r.state), ps.to_tree(v)))
        ctx.true("earlier-unaffected", np.array_equal(first[i], again), i=i)
    ctx.true("arguments-untouched",
             common.snapshot([p.est, [s[0] for s in settings]]) == snap)


def family_parts(ctx):
    """The building blocks."""
    n = ctx.choice(1, 2, 5, 9)
    which = ctx.choice("full_prec_to_scale", "low_rank_mv", "low_rank_square")
    ctx.desc(which=which, n=n)
    if which == "full_prec_to_scale":
        A = gen.psd(ctx, n, lo=-1, hi=ctx.choice(0.5, 2.0) if ctx.x64 else 0.5)
        L = to_np(ctx.call("full_prec_to_scale", full_prec_to_scale, gen.dev(A)))
        inv = np.linalg.inv(A)
        ctx.close("scale-squared", L @ L.T, inv, tol=1e-9 if ctx.x64 else 1e-3)
        return
    r = ctx.choice(1, n)
    U, S = post.low_rank_parts(ctx, n, r)
    s = ctx.choice(0.0, 0.5, 3.0)
    t = LowRankTerms(U=gen.dev(U), S=gen.dev(S), scalar=gen.dev(np.float64(s)))
    M = s * np.eye(n) + (U * S) @ U.T
    if which == "low_rank_square":
        t = ctx.call("low_rank_square", low_rank_square, t)
        M = M @ M
    mv = ctx.call("create_low_rank_mv", create_low_rank_mv, t)
    D = np.stack([to_np(ctx.call("low_rank_mv", mv, gen.dev(np.eye(n)[i])))
                  for i in range(n)], 1)
    ctx.close("low-rank-mv", D, M, tol=1e-9 if ctx.x64 else 2e-5)
