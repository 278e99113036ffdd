"""C03: curvature does not depend on how the data is batched or packaged."""

import jax
import numpy as np

from laplax.api import GGN, laplace
from laplax.curv.ggn import create_ggn_mv, create_ggn_mv_without_data
from laplax.curv.hessian import create_hessian_mv, create_hessian_mv_without_data
from laplax.util.loader import DataLoaderMV, reduce_add
from vlib import common, gen
from vlib.core import Inconclusive, to_np

RULE = ("cases with distinct (family, precision, model, container, loss, packaging, "
        "partition, curvature type, sample counts) whose products or fitted estimates were "
        "compared with the float64 curvature of the whole data set")
FAMILIES = {
    "product": (48, 1200),
    "parts": (24, 500),
    "fit": (48, 1200),
    "fit_lowrank": (24, 600),
    "stream": (16, 300),
}
REQUIRED = ["ggn", "each-batch-once", "estimate", "posterior-cov", "low-rank-estimate",
            "sum-of-parts", "served-whole"]


# Few array shapes, so that compiled kernels are shared between cases: the variety of
# this property is in the packaging.
FEW = {"kinds": ["mlp", "affine", "scaled", "partial"], "in_shape": (3,), "small": "fixed"}


def few(ctx):
    return dict(FEW, out=ctx.choice((3,), (3,), (), (2, 2)))


def package(ctx, pb, kinds=("tuple", "list", "dict", *["loader"] * 6, "torch"),
            sizes=None):
    """The data in one of its documented packagings; returns (data, recorder or None)."""
    kind = ctx.choice(*kinds)
    X, Y = pb.X, pb.Y
    order = np.arange(pb.N)
    if kind in {"loader", "torch"} and ctx.flip():
        order = ctx.rng.permutation(pb.N)
    X, Y = X[order], Y[order]
    sizes = gen.partition(ctx, pb.N) if sizes is None else sizes
    item = ctx.choice("tuple", "list", "dict")
    ctx.desc(package=kind, sizes=sizes if kind in {"loader", "torch"} else [pb.N],
             item=item if kind == "loader" else None)
    mk = {"tuple": lambda a, b: (a, b), "list": lambda a, b: [a, b],
          "dict": lambda a, b: {"target": b, "input": a}}
    if kind in mk:
        return mk[kind](gen.dev(X), gen.dev(Y)), None
    if kind == "loader":
        host = ctx.flip(0.3)
        batches, k = [], 0
        for s in sizes:
            a, b = gen.dev(X[k:k + s]), gen.dev(Y[k:k + s])
            if host:
                a, b = np.asarray(a), np.asarray(b)
            batches.append(mk[item](a, b))
            k += s
        rec = common.Recorder(batches)
        return rec, rec
    import torch.utils.data as tud

    Xh, Yh = np.asarray(gen.dev(X)), np.asarray(gen.dev(Y))

    class DS(tud.Dataset):
        def __len__(self):
            return len(X)

        def __getitem__(self, i):
            return Xh[i], Yh[i]

    b = max(sizes)
    ctx.desc(sizes=[b])
    return tud.DataLoader(
        DS(), batch_size=b, shuffle=False,
        collate_fn=lambda it: (np.stack([i[0] for i in it]), np.stack([i[1] for i in it]))
    ), None


def served_whole(ctx, rec):
    """Every pass over the loader was complete, or only peeked at its first batch."""
    k = len(rec.batches)
    log, i, full = rec.log, 0, 0
    ok = True
    while i < len(log):
        if log[i:i + k] == list(range(k)):
            i += k
            full += 1
        elif log[i] == 0:
            i += 1
        else:
            ok = False
            break
    ctx.true("served-whole", ok and full >= 1, log=rec.log[:60], batches=k)


def floors(ctx, pb, factor):
    s = factor * sum(np.linalg.norm(pb.model.jac(x), 2) ** 2 for x in pb.X)
    return s, s * (1e-6 if ctx.x64 else 3e-2)


def family_product(ctx):
    pb = gen.make_problem(ctx, gen.LOSSES_VEC, n=ctx.choice(1, 2, 4, 5, 5, 37), **few(ctx))
    data, rec = package(ctx, pb)
    factor = ctx.choice(1.0, 1.0, 2, 0.125, 300.0)
    kw = {"factor": factor} if factor != 1.0 else {}
    model_fn = pb.model_fn
    if ctx.flip(0.2) and pb.loss.name != "cross_entropy":
        f = pb.model_fn
        model_fn = lambda input, params: jax.vmap(lambda x: f(input=x, params=params))(input)  # noqa: E731, A002
        kw["vmap_over_data"] = False
    if ctx.flip(0.2):  # a user transform
        if isinstance(data, dict) or (rec and isinstance(rec.batches[0], dict)):
            kw["transform"] = lambda b: {"input": b["input"], "target": b["target"]}
        else:
            kw["transform"] = lambda b: {"input": b[0], "target": b[1]}
    ctx.desc(factor=factor, opts=sorted(kw))
    mv = ctx.call("GGN", GGN, model_fn, pb.params, data, pb.loss.lib,
                  verbose_logging=ctx.flip(0.3), **kw)
    if rec:
        served_whole(ctx, rec)
    sc, floor = floors(ctx, pb, factor)
    G = factor * pb.ggn()
    for _ in range(2):
        before = len(rec.log) if rec else 0
        common.watch_product(ctx, "ggn", mv, G, pb.model.ps, nvec=1, basis=False, floor=floor)
        if rec:
            ctx.true("each-batch-once", rec.log[before:] == list(range(len(rec.batches))),
                     served=rec.log[before:], batches=len(rec.batches))


def family_parts(ctx):
    """Low-level products: the parts of any partition add up to the whole."""
    hess = ctx.flip()
    pb = gen.make_problem(ctx, gen.LOSSES_VEC, n=ctx.choice(2, 4, 5, 5, 40), smooth_only=True,
                          **few(ctx))
    make = create_hessian_mv if hess else create_ggn_mv
    ctx.desc(hess=hess)
    sizes = gen.partition(ctx, pb.N)
    perm = ctx.rng.permutation(pb.N)
    ctx.desc(sizes=sizes)
    whole = ctx.call("product", make, pb.model_fn, pb.params, pb.data, pb.loss.lib)
    v = gen.rand_flat(ctx, pb.P)
    ps = pb.model.ps
    vt = ps.to_tree(v)
    w = ps.check_like(ctx, "structure", ctx.call("product", jax.jit(whole), vt))
    tot, k, sc = 0, 0, 0.0
    for s in sizes:
        idx = perm[k:k + s]
        k += s
        part = {a: b[idx] for a, b in pb.data.items()}
        kw = {}
        if ctx.flip(0.3):
            kw = {"num_curv_samples": s, "num_total_samples": s}
        op = ctx.call("product", make, pb.model_fn, pb.params, part, pb.loss.lib, **kw)
        r = ps.check_like(ctx, "structure", ctx.call("product", op, vt))
        tot = tot + r
        sc += np.linalg.norm(r)
    sc2, fl = floors(ctx, pb, 1.0)
    fl = fl * np.linalg.norm(v) if not hess else max(fl * np.linalg.norm(v), sc)
    ctx.close("sum-of-parts", tot, w, floor=max(fl, 1e-2 * sc))
    if not hess:
        ctx.close("ggn", w, pb.ggn() @ v, floor=fl)


def fit_kwargs(ctx):
    mode = ctx.choice("none", "none", "both", "total", "less")
    if mode == "none":
        return {}, 1.0
    if mode == "both":
        c, t = ctx.choice(1, 4, 7), ctx.choice(10, 999, 60000)
        return {"num_curv_samples": c, "num_total_samples": t}, t / c
    if mode == "total":
        return {"num_total_samples": 12}, 12.0
    return {"num_curv_samples": 8, "num_total_samples": 2}, 0.25


def check_posterior(ctx, posterior_fn, M, ps, tol, cond_max=1e5):
    """cov product of a fitted posterior against the dense inverse."""
    nM = max(np.linalg.norm(M, 2), 1e-6)
    tau = float(np.float32(ctx.choice(0.3, 1.0, 5.0) * max(nM * (1e-4 if ctx.x64 else 1e-2), .1)))
    args = {"prior_prec": tau}
    s2 = 1.0
    if ctx.flip():
        s2 = ctx.choice(0.5, 2.0)
        args["sigma_squared"] = s2
    c = ctx.choice(1.0, 1.0, 3.0)
    post = ctx.call("posterior_fn", posterior_fn, args, *([c] if c != 1.0 else []))
    cov = ctx.call("cov_mv", post.cov_mv, post.state)
    want = c * np.linalg.inv(s2 * M + tau * np.eye(ps.size))
    v = gen.rand_flat(ctx, ps.size)
    got = ps.check_like(ctx, "posterior-cov:structure", ctx.call("cov_mv", cov, ps.to_tree(v)))
    cond = np.linalg.cond(s2 * M + tau * np.eye(ps.size))
    ctx.close("posterior-cov", got, want @ v, tol=max(tol, cond * (1e-13 if ctx.x64 else 3e-6)),
              floor=np.linalg.norm(want, 2) * np.linalg.norm(v))


def fit(ctx, pb, data, curv_type, factor_kw, **extra):
    kw = dict(factor_kw)
    if ctx.flip(0.25):
        kw["curv_mv_jit"] = True
        ctx.desc(curv_mv_jit=True)
    ct = ctx.choice(curv_type, curv_type.upper())
    return ctx.call("laplace", laplace, pb.model_fn, pb.params, data, loss_fn=pb.loss.lib,
                    curv_type=ct, **kw, **extra)


def family_fit(ctx):
    from laplax.enums import CurvApprox

    pb = gen.make_problem(ctx, ["mse", "cross_entropy", "huber", "binary_cross_entropy"],
                          n=ctx.choice(1, 2, 4, 5, 5, 37), **few(ctx))
    data, rec = package(ctx, pb)
    kw, factor = fit_kwargs(ctx)
    ct = ctx.choice("full", "diagonal")
    ctx.desc(curv=ct, counts=sorted(kw.values()))
    out = fit(ctx, pb, data, ct, kw)
    posterior_fn, est = out
    if rec:
        served_whole(ctx, rec)
    G = factor * pb.ggn()
    sc, fl = floors(ctx, pb, factor)
    M = G if ct == "full" else np.diag(np.diag(G))
    want = G if ct == "full" else np.diag(G)
    ctx.close("estimate", est, want, floor=fl)
    check_posterior(ctx, posterior_fn, M, pb.model.ps, ctx.tol)
    if ctx.flip(0.3):  # enum spelling
        _, est2 = ctx.call("laplace", laplace, pb.model_fn, pb.params, data,
                           loss_fn=pb.loss.lib, curv_type=CurvApprox(ct), **kw)
        ctx.close("estimate", est2, want, floor=fl)


def separated(G, gap=2e-2):
    """Rank of G if its non-zero spectrum is well separated, else None."""
    ev = np.sort(np.linalg.eigvalsh(G))[::-1]
    top = ev[0]
    if top <= 0:
        return None
    nz = ev[ev > 1e-8 * top]
    if nz[-1] < gap * top:
        return None
    if len(nz) > 1 and np.min(-np.diff(nz)) < gap * top:
        return None
    return len(nz)


def family_fit_lowrank(ctx):
    for _ in range(200):
        ctx.descr = {}
        pb = gen.make_problem(ctx, ["mse", "huber"], n=ctx.choice(2, 3, 4), out="scalar",
                              kinds=["mlp", "poly", "scaled", "conv", "affine"],
                              in_shape=(3,), small=True)
        G = pb.ggn()
        r = separated(G)
        if r is not None and pb.P > r + 1:
            break
    else:
        raise Inconclusive("no problem with a separated spectrum")
    data, rec = package(ctx, pb)
    kw, factor = fit_kwargs(ctx)
    if factor > 50 or factor < 0.3:
        kw, factor = {"num_curv_samples": 4, "num_total_samples": 10}, 2.5
    ps = pb.model.ps
    lob = ctx.flip(0.25) and ps.size > 10
    if lob:
        rank, ct = 1, "lobpcg"
    else:
        rank, ct = ctx.choice(r + 1, r + 1, r + 2), "lanczos"
    ctx.desc(curv=ct, rank=rank, true_rank=r, counts=sorted(kw.values()))
    extra = {"rank": rank, "key": ctx.key()}
    if not lob and ctx.flip(0.3):
        extra.pop("key")
        extra["b"] = gen.dev(gen.rand_flat(ctx, ps.size))
    if ctx.flip(0.3):
        extra["mv_jit"] = False
    posterior_fn, est = fit(ctx, pb, data, ct, kw, **extra)
    if rec:
        served_whole(ctx, rec)
    U, S = to_np(est.U), to_np(est.S)
    got = (U * S) @ U.T
    Gf = factor * G
    nG = np.linalg.norm(Gf, 2)
    if lob:
        ctx.true("low-rank-estimate", np.max(np.abs(U.T @ Gf @ U - np.diag(S))) <=
                 nG * (1e-6 if ctx.x64 else 1e-3), U=U, S=S)
        # the same fit from one whole batch
        base = ctx.call("laplace", laplace, pb.model_fn, pb.params,
                        (pb.data["input"], pb.data["target"]), loss_fn=pb.loss.lib,
                        curv_type=ct, **kw, rank=rank, key=extra["key"])[1]
        ctx.close("low-rank-estimate", S, base.S, tol=1e-5 if ctx.x64 else 3e-3)
        return
    ctx.close("low-rank-estimate", got, Gf, tol=1e-5 if ctx.x64 else 1e-2)
    check_posterior(ctx, posterior_fn, Gf, ps, 1e-4 if ctx.x64 else 3e-2)


def family_stream(ctx):
    """The streaming object over per-batch curvature products (with a fixed factor)."""
    hess = ctx.flip()
    pb = gen.make_problem(ctx, gen.LOSSES_VEC, n=ctx.choice(2, 4, 5, 5, 40), smooth_only=True,
                          **few(ctx))
    factor = ctx.choice(1.0, 2.5)
    make = create_hessian_mv_without_data if hess else create_ggn_mv_without_data
    op = ctx.call("product", make, pb.model_fn, pb.params, pb.loss.lib, factor)
    data, rec = package(ctx, pb, kinds=("loader",))
    isd = isinstance(rec.batches[0], dict)
    tr = (lambda b: b) if isd else (lambda b: {"input": b[0], "target": b[1]})
    kw = {"transform": tr} if isd or ctx.flip() else {}
    s = DataLoaderMV(op, rec, reduce=reduce_add, **kw)
    ps = pb.model.ps
    v = gen.rand_flat(ctx, pb.P)
    got = ps.check_like(ctx, "structure", ctx.call("stream", s, ps.to_tree(v)))
    ctx.true("each-batch-once", rec.log == list(range(len(rec.batches))), served=rec.log)
    whole = ctx.call("product", op, ps.to_tree(v), pb.data)
    want = gen.tree_flat_np(whole)
    sc, fl = floors(ctx, pb, factor)
    fl = max(fl * np.linalg.norm(v), sc * np.linalg.norm(v) * (1e-1 if hess else 0))
    ctx.close("sum-of-parts", got, want, floor=fl)
    if not hess:
        ctx.close("ggn", got, factor * pb.ggn() @ v, floor=fl)


