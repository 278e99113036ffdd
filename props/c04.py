"""C04: dense and diagonal extraction equal the operator's matrix and diagonal."""

import jax
import jax.numpy as jnp
import numpy as np

from laplax.curv.cov import estimate_curvature
from laplax.curv.diagonal import create_diagonal_curvature
from laplax.curv.full import create_full_curvature
from laplax.util.flatten import create_pytree_flattener, wrap_function
from laplax.util.mv import diagonal, to_dense
from vlib import gen
from vlib.core import to_np

RULE = ("cases with distinct (family, precision, operator size, layout structure, batch "
        "size, jit option) whose extracted matrix or diagonal was compared entrywise")
FAMILIES = {
    "dense_flat": (56, 800),
    "dense_tree": (48, 700),
    "diag_flat": (48, 700),
    "diag_tree": (48, 700),
    "estimate": (56, 800),
    "array": (16, 200),
    "reject": (16, 100),
}
REQUIRED = ["dense", "dense:tree", "diagonal", "diagonal:array", "full-curvature",
            "diagonal-curvature", "reject"]


def dtype_tol(ctx):
    return 1e-10 if ctx.x64 else 2e-5


def matrix(ctx, m, n):
    """Matrices whose entries identify their position, and ordinary ones."""
    kind = ctx.choice("index", "normal", "sparse", "huge")
    ctx.desc(matrix=kind)
    if kind == "index":
        return np.arange(m * n, dtype=float).reshape(m, n) + 1
    if kind == "normal":
        return gen.f32(ctx.rng.normal(size=(m, n)))
    if kind == "sparse":
        return gen.f32(ctx.rng.normal(size=(m, n)) * (ctx.rng.random((m, n)) < 0.3))
    return gen.f32(ctx.rng.normal(size=(m, n)) * 10.0 ** ctx.rng.integers(-6, 7, size=(m, n)))


def flat_op(ctx, A):
    """A product of flat vectors; some answer in the type of their argument."""
    Aj = gen.dev(A)
    if ctx.flip(0.35):
        ctx.desc(op="keeps type")
        return lambda v: (Aj @ v).astype(v.dtype)
    return lambda v: Aj @ v


def batch_option(ctx, n, name):
    b = ctx.choice(None, None, 1, 2, 3, n, n + 5, max(1, n - 1))
    ctx.desc(batch=b)
    return {} if b is None and ctx.flip() else {name: b}


def family_dense_flat(ctx):
    n = ctx.choice(1, 2, 3, 5, 8, 17, 33, 70, 130)
    m = ctx.choice(n, n, 1, 2, 4, 19)
    A = matrix(ctx, m, n)
    ctx.desc(shape=[m, n])
    mv = flat_op(ctx, A)
    if ctx.flip(0.3):
        mv = jax.jit(mv)
    got = ctx.call("to_dense", to_dense, mv, layout=n,
                   **batch_option(ctx, n, "to_dense_batch_size"))
    ctx.close("dense", got, A, tol=dtype_tol(ctx))
    # entry by entry: large entries must not hide wrong small ones
    ctx.rel("dense", got, A, tol=1e-6, floor=1e-30)


def tree_op(A, in_ps, out_ps):
    """Matrix as a map between two pytrees."""
    Aj = gen.dev(A)

    def mv(t):
        v = jnp.concatenate([jnp.ravel(x) for x in jax.tree.leaves(t)])
        r = Aj @ v
        out, k = [], 0
        for x in jax.tree.leaves(out_ps.tree_np):
            out.append(r[k:k + x.size].reshape(x.shape))
            k += x.size
        return jax.tree.unflatten(out_ps.struct, out)
    return mv


def family_dense_tree(ctx):
    """A pytree layout: the result keeps the output's structure; every leaf holds, along
    its last axis, the response to each basis vector."""
    ps = gen.make_space(ctx, 12, big=0.08)
    n = ps.size
    kind = ctx.choice("square", "flat_out", "other_tree")
    out_ps = ps if kind != "other_tree" else gen.make_space(ctx, 7)
    m = n if kind == "square" else (ctx.choice(1, n, 4) if kind == "flat_out" else out_ps.size)
    A = matrix(ctx, m, n)
    ctx.desc(kind=kind, shape=[m, n])
    opts = batch_option(ctx, n, "to_dense_batch_size")
    if kind == "flat_out":
        Aj = gen.dev(A)
        mv = lambda t: Aj @ jnp.concatenate([jnp.ravel(x) for x in jax.tree.leaves(t)])  # noqa: E731
        got = ctx.call("to_dense", to_dense, mv, layout=ps.tree, **opts)
        ctx.close("dense", got, A, tol=dtype_tol(ctx))
        return
    got = ctx.call("to_dense", to_dense, tree_op(A, ps, out_ps), layout=ps.tree, **opts)
    if not ctx.true("dense:tree", jax.tree.structure(got) == out_ps.struct,
                    got=jax.tree.structure(got), want=out_ps.struct):
        return
    k = 0
    for leaf, ref in zip(jax.tree.leaves(got), jax.tree.leaves(out_ps.tree_np), strict=True):
        block = A[k:k + ref.size]  # (size, n)
        k += ref.size
        # jnp.transpose of (n, *shape) reverses every axis
        want = np.stack([block[:, j].reshape(ref.shape) for j in range(n)]).T
        ctx.close("dense:tree", leaf, want, tol=dtype_tol(ctx))
    # flattened operator: the plain matrix in flattened order
    flatten, unflatten = create_pytree_flattener(ps.tree)
    of, _ = create_pytree_flattener(out_ps.tree)
    flat_mv = wrap_function(tree_op(A, ps, out_ps), input_fn=unflatten, output_fn=of)
    got = ctx.call("to_dense", to_dense, flat_mv, layout=n, **opts)
    ctx.close("dense", got, A, tol=dtype_tol(ctx))


class HostMV:
    """A product that cannot be traced (it computes with numpy)."""

    def __init__(self, A, dtype):
        self.A, self.dtype, self.calls = A, dtype, 0

    def __call__(self, v):
        return jax.pure_callback(
            self._host, jax.ShapeDtypeStruct((self.A.shape[0],), self.dtype), v,
            vmap_method="sequential")

    def _host(self, v):
        self.calls += 1
        return (self.A @ np.asarray(v, float)).astype(self.dtype)


def family_diag_flat(ctx):
    n = ctx.choice(1, 2, 3, 5, 9, 16, 33, 70, 130)
    A = matrix(ctx, n, n)
    ctx.desc(n=n)
    mv = flat_op(ctx, A)
    opts = batch_option(ctx, n, "diagonal_batch_size")
    if ctx.flip(0.4):
        opts["mv_jittable"] = ctx.flip()
    got = ctx.call("diagonal", diagonal, mv, layout=n, **opts)
    ctx.close("diagonal", got, np.diag(A), tol=dtype_tol(ctx))
    ctx.rel("diagonal", got, np.diag(A), tol=1e-6, floor=1e-30)
    if ctx.flip(0.4):
        got = ctx.call("diagonal", diagonal, mv, n, mv_jittable=False)
        ctx.close("diagonal", got, np.diag(A), tol=dtype_tol(ctx))
    if ctx.flip(0.3):  # host callbacks: one product per basis vector
        h = HostMV(A, gen.dev(A).dtype)
        got = ctx.call("diagonal", diagonal, h, layout=n, mv_jittable=ctx.flip())
        ctx.close("diagonal", got, np.diag(A), tol=dtype_tol(ctx))
        jax.block_until_ready(got)


def family_diag_tree(ctx):
    ps = gen.make_space(ctx, 14, big=0.08)
    n = ps.size
    A = matrix(ctx, n, n)
    opts = batch_option(ctx, n, "diagonal_batch_size")
    if ctx.flip(0.4):
        opts["mv_jittable"] = ctx.flip()
    got = ctx.call("diagonal", diagonal, tree_op(A, ps, ps), layout=ps.tree, **opts)
    ctx.close("diagonal", got, np.diag(A), tol=dtype_tol(ctx))
    if ctx.flip():  # tree in, flat out
        Aj = gen.dev(A)
        mv = lambda t: Aj @ jnp.concatenate([jnp.ravel(x) for x in jax.tree.leaves(t)])  # noqa: E731
        got = ctx.call("diagonal", diagonal, mv, layout=ps.tree)
        ctx.close("diagonal", got, np.diag(A), tol=dtype_tol(ctx))
    if ctx.flip(0.5):  # consistency of the two extractions
        flatten, unflatten = create_pytree_flattener(ps.tree)
        flat_mv = wrap_function(tree_op(A, ps, ps), input_fn=unflatten, output_fn=flatten)
        D = to_np(ctx.call("to_dense", to_dense, flat_mv, layout=n))
        d = to_np(ctx.call("diagonal", diagonal, flat_mv, layout=n))
        ctx.close("diagonal", d, np.diag(D), tol=dtype_tol(ctx))


def family_estimate(ctx):
    """Full and diagonal estimates from pytree or integer layouts."""
    as_int = ctx.flip(0.4)
    if as_int:
        n = ctx.choice(1, 2, 5, 9, 20, 70)
        A = matrix(ctx, n, n)
        mv, layout = flat_op(ctx, A), n
        ctx.desc(layout="int", n=n)
    else:
        ps = gen.make_space(ctx, 14, big=0.08)
        n = ps.size
        A = matrix(ctx, n, n)
        mv, layout = tree_op(A, ps, ps), ps.tree
        ctx.desc(layout="tree", n=n)
    if ctx.flip(0.3):
        mv = jax.jit(mv)
    api = ctx.flip()
    if api:
        full = ctx.call("full", estimate_curvature, "full", mv, layout)
        dg = ctx.call("diag", estimate_curvature, "diagonal", mv=mv, layout=layout)
    else:
        full = ctx.call("full", create_full_curvature, mv, layout=layout)
        dg = ctx.call("diag", create_diagonal_curvature, mv, layout=layout)
    ctx.close("full-curvature", full, A, tol=dtype_tol(ctx))
    ctx.close("diagonal-curvature", dg, np.diag(A), tol=dtype_tol(ctx))
    ctx.rel("diagonal-curvature", dg, np.diag(A), tol=1e-6, floor=1e-30)


def family_array(ctx):
    """An operator given as an array."""
    n = ctx.choice(1, 2, 7)
    A = matrix(ctx, n, n)
    got = ctx.call("diagonal", diagonal, gen.dev(A))
    ctx.close("diagonal:array", got, np.diag(A), tol=dtype_tol(ctx))
    got = ctx.call("diagonal", diagonal, gen.dev(A), layout=n, mv_jittable=ctx.flip())
    ctx.close("diagonal:array", got, np.diag(A), tol=dtype_tol(ctx))
    ctx.desc(n=n)


def family_reject(ctx):
    """Operators without a usable layout."""
    A = gen.dev(np.eye(3))
    mv = lambda v: A @ v  # noqa: E731
    which = ctx.choice("diag-none", "diag-none-kw", "diag-nonjit")
    ctx.desc(which=which)
    if which == "diag-none":
        ctx.raises("reject", lambda: diagonal(mv), TypeError)
    elif which == "diag-none-kw":
        ctx.raises("reject", lambda: diagonal(mv, layout=None, diagonal_batch_size=2),
                   TypeError)
    else:
        ctx.raises("reject", lambda: diagonal(mv, None, mv_jittable=False), TypeError)
