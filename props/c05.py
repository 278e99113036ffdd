"""C05: low-rank terms are the operator compressed to the span they found."""

import warnings

import jax
import jax.numpy as jnp
import numpy as np

from laplax.curv.cov import estimate_curvature
from laplax.curv.lanczos import (
    compute_eigendecomposition,
    construct_tridiagonal,
    lanczos_iterations,
    lanczos_lowrank,
)
from laplax.curv.lobpcg import lobpcg_lowrank
from laplax.curv.low_rank import create_low_rank_curvature
from laplax.curv.utils import get_matvec
from laplax.enums import LowRankMethod
from vlib import gen
from vlib.core import to_np

RULE = ("cases with distinct (family, precision, operator kind, spectrum, size, rank, "
        "options) whose eigenvalue/vector terms were judged against the dense operator")
FAMILIES = {
    "lanczos": (64, 1300),
    "krylov": (48, 900, "x64"),
    "reconstruct": (40, 800),
    "overrank": (32, 600),
    "iterations": (24, 400),
    "lobpcg": (28, 500),
    "options": (20, 500),
    "reject": (12, 60),
}
REQUIRED = ["orthonormal", "rayleigh", "within-spectrum", "no-double-count", "reconstruct",
            "krylov-space", "lobpcg:orthonormal", "deterministic", "dtype", "reject",
            "tridiagonal", "lobpcg:top"]


def spectrum(ctx, n, kind):
    r = ctx.rng
    if kind == "spread":
        return np.sort(10 ** r.uniform(-2, 1, n))
    if kind == "linear":
        return np.arange(1, n + 1) * 1.0
    if kind == "indefinite":
        return r.normal(size=n) * 3
    if kind == "deficient":
        k = max(1, n // 2)
        return np.r_[np.zeros(n - k), np.arange(1, k + 1)]
    if kind == "repeated":
        return np.r_[np.ones(n - n // 2), 2 * np.ones(n // 2)]
    if kind == "identity":
        return np.ones(n)
    if kind == "zero":
        return np.zeros(n)
    if kind == "negative":
        return -np.sort(10 ** r.uniform(-1, 1, n))
    if kind == "few-positive":
        return np.r_[-np.arange(1, n) * 1.0, 3.0]
    if kind == "spike":
        return np.r_[np.full(n - 1, 0.1), 50.0]
    raise KeyError(kind)


def operator(ctx, n, kinds=None, scale=True):
    kind = ctx.choice(*(kinds or ["spread", "linear", "indefinite", "deficient", "repeated",
                                  "identity", "spike", "negative", "few-positive"]))
    ev = spectrum(ctx, n, kind)
    if scale:
        s = ctx.choice(1.0, 1.0, 1.0, 0.01, 1000.0)
        ev = ev * s
        ctx.desc(scale=s)
    Q, _ = np.linalg.qr(ctx.rng.normal(size=(n, n)))
    A = (Q * ev) @ Q.T if kind != "identity" else np.diag(ev)
    A = (A + A.T) / 2
    A = gen.f32(A)
    ctx.desc(spectrum=kind, n=n)
    return A


def give(ctx, A, forms=("array", "flat", "tree", "host")):
    """The operator in one of its accepted forms: (A, kwargs, may be traced)."""
    n = A.shape[0]
    form = ctx.choice(*forms)
    ctx.desc(form=form)
    if form == "array":
        return gen.dev(A), {}, True
    Aj = gen.dev(A)
    if form == "flat":
        return (lambda v: Aj @ v), {"layout": n}, True
    if form == "tree":
        a = ctx.int(0, n)
        ps = gen.ParamSpace(ctx.choice(*gen.STYLES),
                            [np.zeros(s) for s in ((a,), (n - a, 1))])
        return gen.mv_from_dense(A, ps), {"layout": ps.tree}, True
    An = np.asarray(A)

    def host(v):  # concrete values only
        x = np.asarray(v)
        return jnp.asarray((An @ x.astype(float)).astype(x.dtype))
    return host, {"layout": n}, False


def judge(ctx, terms, A, tol, rank, pre=""):
    U, S, s0 = to_np(terms.U), to_np(terms.S), to_np(terms.scalar)
    n = A.shape[0]
    ev = np.linalg.eigvalsh(A)
    nA = max(np.max(np.abs(ev)), 1e-12)
    ctx.true(pre + "shapes", U.shape == (n, rank) and S.shape == (rank,), U=U.shape, S=S.shape)
    ctx.true(pre + "finite", np.isfinite(U).all() and np.isfinite(S).all(), S=S)
    ctx.close(pre + "scalar-zero", s0, np.zeros(()))
    if U.shape != (n, rank) or S.shape != (rank,) or not np.isfinite(U).all():
        return U, S, nA
    w = np.abs(S) > 30 * tol * nA  # non-zero weight
    V = U[:, w]
    ctx.close(pre + "orthonormal", V.T @ V, np.eye(w.sum()), tol=1e-6 if ctx.x64 else 1e-4,
              floor=1.0)
    ctx.close(pre + "rayleigh", V.T @ A @ V, np.diag(S[w]), tol=10 * tol, floor=nA)
    ctx.true(pre + "within-spectrum", (S <= max(ev.max(), 0) + 10 * tol * nA).all()
             and (S >= min(ev.min(), 0) - 10 * tol * nA).all(), S=S, low=ev.min(),
             high=ev.max())
    # the weighted part never exceeds the operator: interlacing of every count
    pos = np.sort(S[S > 0])[::-1]
    top = np.sort(ev)[::-1]
    k = min(len(pos), n)
    ctx.true(pre + "no-double-count", (pos[:k] <= np.maximum(top[:k], 0) + 10 * tol * nA).all()
             and (pos[k:] <= 10 * tol * nA).all() and
             np.sum(w) <= n, S=S, ev=top)
    return U, S, nA


def start(ctx, n, b=False):
    if b or ctx.flip(0.4):
        s = ctx.choice(1.0, 1.0, 1e-6, 1e-3, 1e4, 1e7)
        ctx.desc(start=s)
        return {"b": gen.dev(gen.f32(s * ctx.rng.normal(size=n)))}
    return {"key": ctx.key()}


def mtol(ctx):
    return 1e-7 if ctx.x64 else 2e-5


def family_lanczos(ctx):
    n = ctx.choice(2, 3, 6, 11, 20, 20, 50)
    A = operator(ctx, n)
    op, kw, traced = give(ctx, A)
    rank = ctx.choice(1, 2, min(3, n), n, max(1, n - 1))
    kw.update(start(ctx, n))
    if not traced or ctx.flip(0.3):
        kw["mv_jit"] = False
    if ctx.flip(0.2):
        kw["tol"] = ctx.choice(1e-8, 1e-5)
    ctx.desc(rank=rank, opts=sorted(k for k in kw if k not in {"layout"}))
    entry = ctx.choice("fn", "estimate", "create")
    if entry == "fn":
        t = ctx.call("lanczos", lanczos_lowrank, op, rank=rank, **kw)
    elif entry == "estimate" and not isinstance(op, jax.Array):
        t = ctx.call("lanczos", estimate_curvature, "lanczos", op, rank=rank, **kw)
    else:
        m = ctx.choice({}, {"low_rank_method": LowRankMethod.LANCZOS},
                       {"low_rank_method": "lanczos"})
        kw.setdefault("layout", None)
        t = ctx.call("lanczos", create_low_rank_curvature, op, rank=rank, **m, **kw)
    nA = max(np.linalg.norm(A, 2), 1e-9)
    # breakdown is an absolute threshold (tol)
    judge(ctx, t, A, max(mtol(ctx), 20 * kw.get("tol", 1e-6) / nA if nA < 1 else 0), rank)


def krylov(A, b, k):
    """Orthonormal basis of span(b, .., A^{k-1} b) with residual norms."""
    Q, betas = [b / np.linalg.norm(b)], []
    for _ in range(k - 1):
        w = A @ Q[-1]
        for _ in range(3):
            for q in Q:
                w = w - (q @ w) * q
        betas.append(np.linalg.norm(w))
        if betas[-1] < 1e-9 * np.linalg.norm(A, 2):
            break
        Q.append(w / betas[-1])
    return np.stack(Q, 1), betas


def family_krylov(ctx):
    """With a given start vector the span is the Krylov space of that vector."""
    n = ctx.choice(4, 7, 12, 25, 25, 60)
    A = operator(ctx, n, ["spread", "linear", "indefinite", "spike", "negative"], scale=False)
    op, kw, traced = give(ctx, A)
    if not traced or ctx.flip(0.3):
        kw["mv_jit"] = False
    if ctx.flip(0.2):
        kw["full_reorthogonalize"] = False
    rank = ctx.choice(1, 2, 3, 4)
    kw.update(start(ctx, n, b=True))
    if ctx.flip(0.4):  # almost an eigenvector: little, but something, is left
        _, vec = np.linalg.eigh(A)
        eps = ctx.choice(1e-2, 1e-3, 3e-4, 1e-4)
        if ctx.flip():
            kw["mv_jit"] = False
        kw["b"] = gen.dev(vec[:, ctx.int(0, n - 1)] + eps * ctx.rng.normal(size=n))
        ctx.desc(start=f"eigenvector+{eps}")
    if ctx.flip(0.25):  # a start vector needs no randomness
        kw["key"] = ctx.key()
    ctx.desc(rank=rank, opts=sorted(kw))
    t = ctx.call("lanczos", lanczos_lowrank, op, rank=rank, **kw)
    U, S, nA = judge(ctx, t, A, 1e-7, rank)
    Q, betas = krylov(A, to_np(kw["b"]), rank)
    if betas and min(betas) < max(1e-5, 1e-5 * nA):
        return
    T = Q.T @ A @ Q
    ctx.close("krylov-space", np.sort(S), np.linalg.eigvalsh(T), tol=1e-7, floor=nA)
    ctx.close("krylov-space", (U * S) @ U.T, Q @ T @ Q.T, tol=1e-6, floor=nA)


def family_reconstruct(ctx):
    """The rank covers the whole Krylov space of a generic start."""
    n = ctx.choice(1, 2, 3, 5, 8)
    kind = ctx.choice("full", "full", "deficient", "clusters")
    ctx.desc(kind=kind)
    if kind == "full":
        ev = np.arange(1, n + 1) * ctx.choice(0.5, 1.0, 20.0) * np.where(
            ctx.rng.random(n) < 0.2, -1, 1)
        dim = n
    elif kind == "deficient":
        r = max(1, n // 2)
        ev = np.r_[np.zeros(n - r), np.arange(1, r + 1) * 1.0]
        dim = min(n, r + 1)
    else:
        ev = np.r_[np.ones(n - n // 2), 3 * np.ones(n // 2)]
        dim = len(set(ev))
    Q, _ = np.linalg.qr(ctx.rng.normal(size=(n, n)))
    small = kind == "full" and ctx.flip(0.3)  # small, but far above the tolerance
    if small:
        ev = ev / np.max(np.abs(ev)) * ctx.choice(3e-3, 1e-3)
        ctx.desc(small=True)
    A = (Q * ev) @ Q.T
    A = gen.f32((A + A.T) / 2)
    op, kw, traced = give(ctx, A, ("array", "flat", "tree"))
    if ctx.flip(0.3):
        kw["mv_jit"] = False
    kw.update(start(ctx, n, b=kind == "clusters" or small))
    if small:
        _, betas = krylov(A, to_np(kw["b"]), dim)
        if betas and min(betas) < 2e-5:  # close to the threshold of 1e-6
            kw["tol"] = 1e-9
    rank = dim + ctx.choice(0, 0, 1, 3)
    ctx.desc(n=n, rank=rank, dim=dim)
    t = ctx.call("lanczos", lanczos_lowrank, op, rank=rank, **kw)
    tol = 1e-6 if ctx.x64 else 1e-4
    U, S, nA = judge(ctx, t, A, tol / 10, rank)
    R = (U * S) @ U.T
    if kind == "clusters":
        if not ctx.x64:
            return
        # float32 rounding of A splits the clusters at 1e-8; the part in the Krylov space
        b = to_np(kw["b"])
        want = np.zeros((n, n))
        for lam in set(ev):
            P = Q[:, ev == lam]
            q = P @ (P.T @ b)
            q /= np.linalg.norm(q)
            want += lam * np.outer(q, q)
        ctx.close("reconstruct", R, want, tol=1e-4, floor=nA) if rank == dim else None
        return
    ctx.close("reconstruct", R, A, tol=3 * tol, floor=nA)


def family_overrank(ctx):
    """Ranks beyond the operator's rank or dimension."""
    n = ctx.choice(1, 2, 3, 6, 10)
    A = operator(ctx, n, ["identity", "repeated", "deficient", "linear", "zero", "spike"],
                 scale=False)
    op, kw, traced = give(ctx, A)
    if not traced or ctx.flip(0.3):
        kw["mv_jit"] = False
    rank = n + ctx.choice(0, 1, 2, 5, n)
    kw.update(start(ctx, n))
    ctx.desc(rank=rank)
    t = ctx.call("lanczos", lanczos_lowrank, op, rank=rank, **kw)
    U, S, nA = judge(ctx, t, A, 1e-6 if ctx.x64 else 2e-5, rank)
    ev = np.linalg.eigvalsh(A)
    ctx.true("no-double-count", abs(np.sum(np.abs(S))) <= np.sum(np.abs(ev)) + 1e-3 * nA,
             trace=np.sum(np.abs(S)), of=np.sum(np.abs(ev)))


def family_iterations(ctx):
    """The Lanczos recurrence itself."""
    n = ctx.choice(3, 6, 12)
    A = operator(ctx, n, ["spread", "linear", "indefinite", "identity"], scale=False)
    k = ctx.choice(1, 2, n - 1, n)
    b = gen.f32(ctx.rng.normal(size=n))
    dt = gen.dev(b).dtype
    Aj = gen.dev(A)
    jit = ctx.flip()
    ctx.desc(k=k, jit=jit)
    al, be, V = ctx.call("iterations", lanczos_iterations, lambda v: Aj @ v, gen.dev(b),
                         maxiter=k, dtype=dt, mv_jit=jit,
                         full_reorthogonalize=True)
    al, be, V = to_np(al), to_np(be), to_np(V)
    ctx.true("iterations:shapes", al.shape == (k,) and be.shape == (k,) and
             V.shape == (k + 1, n), got=[al.shape, be.shape, V.shape])
    tol = 1e-6 if ctx.x64 else 1e-3
    nA = np.linalg.norm(A, 2)
    ctx.close("iterations:start", V[0], b / np.linalg.norm(b), tol=1e-5)
    nz = np.linalg.norm(V[:k], axis=1) > 0.5
    W = V[:k][nz]
    ctx.close("iterations:orthonormal", W @ W.T, np.eye(len(W)), tol=tol, floor=1.0)
    T = np.diag(al) + np.diag(be[:k - 1], 1) + np.diag(be[:k - 1], -1)
    ctx.close("iterations:compression", (W @ A @ W.T), T[np.ix_(nz, nz)], tol=tol, floor=nA)
    got = ctx.call("tridiagonal", construct_tridiagonal, gen.dev(gen.f32(al)),
                   gen.dev(gen.f32(be)))
    ctx.close("tridiagonal", got, T, tol=1e-6, floor=nA)
    ev = ctx.call("eigendecomposition", compute_eigendecomposition, gen.dev(al), gen.dev(be),
                  gen.dev(V))
    ctx.close("tridiagonal", np.sort(to_np(ev)), np.linalg.eigvalsh(T), tol=tol, floor=nA)
    ev, vec = ctx.call("eigendecomposition", compute_eigendecomposition, gen.dev(al),
                       gen.dev(be), gen.dev(V), compute_vectors=True)
    ev, vec = to_np(ev), to_np(vec)
    ctx.close("tridiagonal", (vec * ev) @ vec.T, V[:k].T @ T @ V[:k], tol=tol, floor=nA)


def family_lobpcg(ctx):
    n = ctx.choice(10, 11, 20, 31)
    A = operator(ctx, n, ["spread", "linear", "deficient", "spike", "indefinite",
                          "negative", "few-positive"])
    op, kw, traced = give(ctx, A, ("array", "flat", "tree"))
    rank = ctx.choice(1, 2, 3, 4, 6, 30)
    real = rank if n > rank * 5 else max(1, n // 5 - 1)
    key = ctx.key()
    if ctx.flip(0.3):
        kw["mv_jit"] = False
    if ctx.flip(0.85):
        kw["key"] = key
    else:
        key = jax.random.key(0)
    if ctx.flip(0.3):  # None: the precision of the computation
        kw["tol"] = ctx.choice(None, 1e-9)
    ctx.desc(rank=rank, opts=sorted(kw), search_tol=kw.get("tol", "default"))
    entry = ctx.choice("fn", "estimate", "create")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if entry == "estimate" and not isinstance(op, jax.Array):
            t = ctx.call("lobpcg", estimate_curvature, "lobpcg", op, rank=rank, **kw)
        elif entry == "create" and not isinstance(op, jax.Array):
            t = ctx.call("lobpcg", create_low_rank_curvature, op, rank=rank,
                         low_rank_method=LowRankMethod.LOBPCG, **kw)
        else:
            t = ctx.call("lobpcg", lobpcg_lowrank, op, rank=rank, **kw)
    tol = 1e-6 if ctx.x64 else 1e-4
    U, S, nA = judge(ctx, t, A, tol, real, pre="lobpcg:")
    if U.shape != (n, real):
        return
    ctx.close("lobpcg:orthonormal", U.T @ U, np.eye(real), tol=1e-5, floor=1.0)
    ctx.close("lobpcg:rayleigh", U.T @ A @ U, np.diag(S), tol=10 * tol, floor=nA)
    ctx.true("lobpcg:descending", (np.diff(S) <= 1e-4 * nA).all(), S=S)
    # the search can only improve on any start vectors: at least the mean eigenvalue,
    # up to what a random one dimensional start can miss
    ev = np.linalg.eigvalsh(A)
    ctx.true("lobpcg:top", S[0] >= np.mean(ev) - 1e-6 * nA, S=S, mean=np.mean(ev))
    if ctx.flip(0.3):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            kw2 = dict(kw, mv_jit=not kw.get("mv_jit", True))
            t2 = ctx.call("lobpcg", lobpcg_lowrank, op, rank=rank, **kw2)
        ctx.close("lobpcg:jit-independent", t2.S, S, tol=1e-4 if ctx.x64 else 1e-2, floor=nA)


def family_options(ctx):
    """Determinism, compilation and precision options."""
    lob = ctx.flip(0.3)
    n = 12 if lob else ctx.choice(3, 7, 12)
    A = operator(ctx, n, ["spread", "linear", "deficient"], scale=False)
    op, kw, _ = give(ctx, A, ("flat", "tree", "array"))
    fn = lobpcg_lowrank if lob else lanczos_lowrank
    rank = 1 if lob else ctx.choice(1, 2, 3)
    key = ctx.key()
    ctx.desc(lob=lob, rank=rank)
    amb = "float64" if ctx.x64 else "float32"
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        a = ctx.call("low-rank", fn, op, key=key, rank=rank, **kw)
        b = ctx.call("low-rank", fn, op, key=key, rank=rank, **kw)
        for x, y, nm in ((a.U, b.U, "U"), (a.S, b.S, "S")):
            ctx.true("deterministic", np.array_equal(np.asarray(x), np.asarray(y)), part=nm)
            ctx.true("dtype", str(x.dtype) == amb, got=str(x.dtype), want=amb)
        ctx.true("dtype", str(a.scalar.dtype) == amb, got=str(a.scalar.dtype))
        nA = np.linalg.norm(A, 2)
        c = ctx.call("low-rank", fn, op, key=key, rank=rank, mv_jit=False, **kw)
        ctx.close("jit-independent", c.S, a.S, tol=1e-6 if ctx.x64 else 1e-3, floor=nA)
        ctx.close("jit-independent", (to_np(c.U) * to_np(c.S)) @ to_np(c.U).T,
                  (to_np(a.U) * to_np(a.S)) @ to_np(a.U).T,
                  tol=1e-4 if ctx.x64 else 1e-2, floor=nA)
        rd = ctx.choice(jnp.float32, jnp.float64, jnp.float16 if not lob else jnp.float32)
        d = ctx.call("low-rank", fn, op, key=key, rank=rank, return_dtype=rd, **kw)
        want = jnp.dtype(rd).name
        ctx.true("dtype", d.U.dtype.name == want and d.S.dtype.name == want,
                 got=[d.U.dtype.name, d.S.dtype.name], want=want)
        ctx.close("return-dtype-value", to_np(d.S), to_np(a.S),
                  tol=3e-3 if want == "float16" else 1e-5, floor=nA)
        if not lob:
            e = ctx.call("low-rank", fn, op, key=key, rank=rank, mv_dtype=jnp.float32, **kw)
            judge(ctx, e, A, 2e-5, rank)
            ctx.true("dtype", str(e.U.dtype) == amb, got=str(e.U.dtype))
            key2 = ctx.key()
            f = ctx.call("low-rank", fn, op, key=key2, rank=1, **kw)
            g = ctx.call("low-rank", fn, op, key=key, rank=1, **kw)
            ctx.true("key-used", abs(float(f.S[0]) - float(g.S[0])) > 1e-9 * nA,
                     f=f.S, g=g.S)


def family_reject(ctx):
    A = gen.dev(np.eye(12))
    which = ctx.choice("no-start", "no-layout", "no-layout-lob", "matvec", "matvec-array",
                       "matvec-int")
    ctx.desc(which=which)
    if which == "no-start":
        ctx.raises("reject", lambda: lanczos_lowrank(A, rank=3), ValueError)
    elif which == "no-layout":
        ctx.raises("reject", lambda: lanczos_lowrank(lambda v: A @ v, key=ctx.key(), rank=2),
                   TypeError)
    elif which == "no-layout-lob":
        ctx.raises("reject", lambda: lobpcg_lowrank(lambda v: A @ v, rank=2), TypeError)
    elif which == "matvec":
        ctx.raises("reject", lambda: get_matvec(lambda v: A @ v), TypeError)
    elif which == "matvec-array":
        n = ctx.choice(1, 4)
        M = gen.f32(ctx.rng.normal(size=(n, n)))
        mv, size = ctx.call("get_matvec", get_matvec, gen.dev(M), jit=ctx.flip())
        v = gen.rand_flat(ctx, n)
        ctx.true("matvec", size == n, size=size)
        ctx.close("matvec", mv(gen.dev(v)), M @ v, tol=1e-5, floor=np.linalg.norm(M))
    else:
        ps = gen.make_space(ctx)
        M = gen.f32(ctx.rng.normal(size=(ps.size, ps.size)))
        mv, size = ctx.call("get_matvec", get_matvec, gen.mv_from_dense(M, ps),
                            layout=ps.tree, jit=ctx.flip())
        v = gen.rand_flat(ctx, ps.size)
        ctx.true("matvec", size == ps.size, size=size)
        ctx.close("matvec", mv(gen.dev(v)), M @ v, tol=1e-5, floor=np.linalg.norm(M))
