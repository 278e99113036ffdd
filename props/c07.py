"""C07: weight samples are mean + scale(draw(key, i))."""

import jax
import jax.numpy as jnp
import numpy as np
from scipy import stats

from laplax.eval.pushforward import get_dist_state, set_get_weight_sample
from vlib import common, gen, post
from vlib.gen import dev, tree_flat_np

RULE = ("cases with distinct (family, precision, parameter structure, posterior, key kind, "
        "precompute option, sample count) whose samples were compared with mean + S z")
FAMILIES = {
    "draw": (32, 900),
    "posterior": (24, 500),
    "options": (24, 500),
    "dist_state": (24, 500),
    "statistics": (10, 200),
}
REQUIRED = ["sample", "structure", "reproducible", "options-agree", "distinct-indices",
            "distinct-keys", "mean-shift", "stat:mean", "stat:covariance", "stat:normal",
            "stat:posterior-covariance", "arguments-untouched"]


def some_key(ctx, seed=None):
    kind = ctx.choice("typed", "typed", "legacy")
    ctx.desc(key=kind)
    s = int(ctx.rng.integers(0, 2**31 - 1)) if seed is None else seed
    if kind == "legacy":
        return jax.random.PRNGKey(s)
    return jax.random.key(s)


def as_index(ctx, i):
    k = ctx.choice("py", "np", "jnp", "jit")
    return {"py": i, "np": np.int32(i), "jnp": jnp.asarray(i), "jit": i}[k], k


def pull(ctx, ps, get, i, how=None):
    """The i-th sample as a flat vector, through one of the ways an index may come."""
    idx, kind = as_index(ctx, i)
    if kind == "jit":
        t = ctx.call("get_weight_sample", jax.jit(get), i)
    else:
        t = ctx.call("get_weight_sample", get, idx)
    return ps.check_like(ctx, "structure", t)


def all_of(ctx, ps, get, n):
    t = ctx.call("get_weight_sample", lambda: jax.lax.map(get, jnp.arange(n)))
    leaves = [np.asarray(x, float).reshape(n, -1) for x in jax.tree.leaves(t)]
    ctx.true("structure", jax.tree.structure(t) == ps.struct)
    return np.concatenate(leaves, 1)


def options(ctx, n):
    """Ways to ask for (or against) precomputation."""
    k = ctx.choice("default", "on", "off", "specific-on", "specific-off", "batch", "batch-n",
                   "none", "both")
    ctx.desc(opt=k)
    return {
        "default": {}, "on": {"precompute": True}, "off": {"precompute": False},
        "none": {"precompute": None},
        "specific-on": {"set_get_weight_sample_precompute": True},
        "specific-off": {"set_get_weight_sample_precompute": False},
        "both": {"set_get_weight_sample_precompute": False, "precompute": True},
        "batch": {"precompute": True, "precompute_list_batch_size": ctx.int(1, n)},
        "batch-n": {"precompute_list_batch_size": n + 3},
    }[k]


def identity_draws(ctx, ps, key, n):
    """The draws themselves: zero mean, identity scale."""
    zero = ps.to_tree(np.zeros(ps.size))
    get = ctx.call("set_get_weight_sample", set_get_weight_sample, key, zero, lambda v: v, n)
    return all_of(ctx, ps, get, n)


def family_draw(ctx):
    """Recover the draws, then predict the samples for other means and scales."""
    ps = gen.make_space(ctx, 10, big=0.08)
    n = ctx.choice(1, 2, 5, 8)
    key = some_key(ctx)
    ctx.desc(n=n)
    Z = identity_draws(ctx, ps, key, n)
    A = gen.f32(ctx.rng.normal(size=(ps.size, ps.size)))
    m = gen.rand_flat(ctx, ps.size, ctx.choice(1.0, 10.0))
    m2 = gen.rand_flat(ctx, ps.size, 3.0)
    B = A if ctx.flip() else gen.f32(np.diag(ctx.rng.normal(size=ps.size)))
    opt = options(ctx, n)
    mean = ps.to_tree(m)
    snap = common.snapshot([mean, key, opt])
    get = ctx.call("set_get_weight_sample", set_get_weight_sample, key, mean,
                   gen.mv_from_dense(B, ps), n, **opt)
    get2 = ctx.call("set_get_weight_sample", set_get_weight_sample, key, ps.to_tree(m2),
                    gen.mv_from_dense(B, ps), n, **opt)
    sc = np.linalg.norm(B, 2) * 3 + np.abs(m).max()
    for i in {0, n - 1, ctx.int(0, n - 1)}:
        got = pull(ctx, ps, get, i)
        ctx.close("sample", got, m + B @ Z[i], tol=1e-11 if ctx.x64 else 3e-5, floor=sc, i=i)
        again = pull(ctx, ps, get, i)
        ctx.close("reproducible", again, got, tol=1e-12 if ctx.x64 else 2e-6, floor=sc)
        other = pull(ctx, ps, get2, i)
        ctx.close("mean-shift", other - got, m2 - m, tol=1e-11 if ctx.x64 else 2e-5,
                  floor=sc + np.abs(m2).max())
    for i in range(n):
        for j in range(i):
            ctx.true("distinct-indices", np.all(Z[i] != Z[j]), i=i, j=j, z=Z[i])
    # entries within a draw are distinct too (no shared subkeys across leaves)
    for i in range(n):
        ctx.true("distinct-entries", len(set(Z[i].tolist())) == ps.size, z=Z[i])
    Z2 = identity_draws(ctx, ps, some_key(ctx), n)
    ctx.true("distinct-keys", np.all(Z != Z2), a=Z, b=Z2)
    ctx.true("arguments-untouched", common.snapshot([mean, key, opt]) == snap)


def family_posterior(ctx):
    """Scale operators of real posteriors."""
    ps = gen.make_space(ctx, 8)
    p = post.Post(ctx, ps, cond=1e3)
    r = p.realize(ctx)
    n = ctx.choice(2, 3, 6)
    key = some_key(ctx)
    sm = ctx.call("scale_mv", r.scale_mv, r.state)
    S = common.dense_of_tree_mv(ctx, "scale_mv", jax.jit(sm), ps)
    Z = identity_draws(ctx, ps, key, n)
    m = gen.rand_flat(ctx, ps.size)
    get = ctx.call("set_get_weight_sample", set_get_weight_sample, key, ps.to_tree(m), sm, n,
                   **options(ctx, n))
    sc = np.linalg.norm(S, 2) * 3 + np.abs(m).max()
    for i in range(n):
        ctx.close("sample", pull(ctx, ps, get, i), m + S @ Z[i],
                  tol=1e-10 if ctx.x64 else 5e-5, floor=sc, i=i)


def family_options(ctx):
    """Every way of precomputing gives the same samples, in any order of access."""
    ps = gen.make_space(ctx, 8)
    p = post.Post(ctx, ps, cond=1e3)
    r = p.realize(ctx)
    n = ctx.choice(1, 4, 7)
    key = None if ctx.flip(0.15) else some_key(ctx)
    sm = r.scale_mv(r.state)
    mean = ps.to_tree(gen.rand_flat(ctx, ps.size))
    base = None
    for opt in [{}, options(ctx, n), options(ctx, n), {"precompute": False}]:
        get = ctx.call("set_get_weight_sample", set_get_weight_sample, key, mean, sm, n, **opt)
        order = ctx.rng.permutation(n)
        rows = {int(i): pull(ctx, ps, get, int(i)) for i in order[:4]}
        if base is None:
            base = all_of(ctx, ps, get, n)
        for i, row in rows.items():
            ctx.close("options-agree", row, base[i], tol=1e-11 if ctx.x64 else 2e-5,
                      floor=np.abs(base).max(), i=i, opt=opt)
    if n > 1:
        ctx.true("distinct-indices", all(np.any(base[i] != base[0]) for i in range(1, n)))


def family_dist_state(ctx):
    """Samples as used by the predictives (posterior mean or zero mean)."""
    ps = gen.make_space(ctx, 8)
    p = post.Post(ctx, ps, cond=1e3)
    r = p.realize(ctx)
    lin = ctx.flip()
    n = ctx.choice(1, 3, 6, 40, 150)
    key = some_key(ctx)
    ctx.desc(linearized=lin, n=n)
    S = common.dense_of_tree_mv(ctx, "scale_mv", jax.jit(r.scale_mv(r.state)), ps)
    Z = identity_draws(ctx, ps, key, n)
    m = ps.theta

    def model_fn(input, params):  # noqa: A002
        return sum(jnp.sum(x) for x in jax.tree.leaves(params)) * input

    snap = common.snapshot(ps.tree)
    d = ctx.call("get_dist_state", get_dist_state, ps.tree, model_fn, r, linearized=lin,
                 num_samples=n, key=key, **options(ctx, n))
    get = ctx.field("dist-state", d, "get_weight_samples")
    ctx.true("dist-state", ctx.field("dist-state", d, "num_samples") == n)
    want_mean = np.zeros(ps.size) if lin else m
    sc = np.linalg.norm(S, 2) * 3 + np.abs(m).max()
    for i in {0, n - 1, ctx.int(0, n - 1)}:
        ctx.close("sample", pull(ctx, ps, get, i), want_mean + S @ Z[i],
                  tol=1e-10 if ctx.x64 else 5e-5, floor=sc, i=i, lin=lin)
    ctx.true("arguments-untouched", common.snapshot(ps.tree) == snap)


def family_statistics(ctx):
    """Moments and distribution of many draws (thresholds at 6.5 standard errors)."""
    shapes = ctx.choice([(2,), (2,), (2,)], [(3,), (1, 3)], [(), (), (2, 2)], [(4,)],
                        [(1,), (2,), (3,)])
    style = ctx.choice("dict", "nested", "tuple", "named", "list")
    ps = gen.ParamSpace(style, [gen.f32(ctx.rng.normal(size=s)) for s in shapes])
    n, d = 3000, ps.size
    ctx.desc(style=style, shapes=[list(s) for s in shapes])
    key = some_key(ctx)
    Z = identity_draws(ctx, ps, key, n)
    lim = 6.5
    ctx.true("stat:mean", np.all(np.abs(Z.mean(0)) * np.sqrt(n) < lim), mean=Z.mean(0))
    C = Z.T @ Z / n
    se = np.sqrt((1 + np.eye(d)) / n)
    ctx.true("stat:covariance", np.all(np.abs(C - np.eye(d)) < lim * se), C=C)
    # serial independence: draw i against draw i+1 (every pair of entries)
    L = Z[:-1].T @ Z[1:] / (n - 1)
    ctx.true("stat:serial", np.all(np.abs(L) < lim / np.sqrt(n - 1)), L=L)
    ks = stats.kstest(Z.reshape(-1), "norm")
    ctx.true("stat:normal", ks.pvalue > 1e-9, p=ks.pvalue)
    m4 = (Z ** 4).mean()
    ctx.true("stat:normal", abs(m4 - 3) < lim * np.sqrt(96 / Z.size), m4=m4)
    Z2 = identity_draws(ctx, ps, some_key(ctx), n)
    X = Z.T @ Z2 / n
    ctx.true("stat:keys", np.all(np.abs(X) < lim / np.sqrt(n)), X=X)
    # posterior moments
    p = post.Post(ctx, ps, cond=1e3)
    r = p.realize(ctx)
    m = gen.rand_flat(ctx, d)
    get = ctx.call("set_get_weight_sample", set_get_weight_sample, key, ps.to_tree(m),
                   r.scale_mv(r.state), n)
    W = all_of(ctx, ps, get, n)
    sd = np.sqrt(np.diag(p.cov))
    tol = 1e-3
    ctx.true("stat:posterior-mean",
             np.all(np.abs(W.mean(0) - m) < lim * sd / np.sqrt(n) + tol * (sd + 1e-6 * np.abs(m))),
             got=W.mean(0), want=m)
    D = (W - m).T @ (W - m) / n
    se = np.sqrt((np.outer(sd, sd) ** 2 + p.cov ** 2) / n)
    ctx.true("stat:posterior-covariance",
             np.all(np.abs(D - p.cov) < lim * se + tol * np.outer(sd, sd)), got=D, want=p.cov)
    ctx.event(n)
