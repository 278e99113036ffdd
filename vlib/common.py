"""Monitors shared by several properties."""

import jax
import jax.numpy as jnp
import numpy as np

from vlib.core import CaseViolation, to_np
from vlib.gen import dev, rand_flat


def watch_product(ctx, name, mv, M, ps, nvec=2, tol=None, floor=0.0, basis=True):
    """Compare a tree product with a dense matrix on random and basis vectors."""
    vecs = [rand_flat(ctx, ps.size) for _ in range(nvec)]
    if basis:
        e = np.zeros(ps.size)
        e[ctx.int(0, ps.size - 1)] = 1
        vecs.append(e * ctx.choice(1.0, 1.0, -1.0, 0.001953125, 512.0))  # any length
    outs = []
    for v in vecs:
        res = ctx.call(name, mv, ps.to_tree(v))
        got = ps.check_like(ctx, name + ":structure", res)
        ctx.close(name, got, M @ v, tol=tol, floor=floor * max(1e-30, np.linalg.norm(v)),
                  v=v)
        outs.append(got)
    return vecs, outs


def algebra(ctx, name, mv, vecs, outs, ps, scale, tol=None, convex=False):
    """Linearity, symmetry and (if convex) positive semi-definiteness of a product."""
    tol = ctx.tol if tol is None else tol
    a, b = 0.75, -1.5
    (u, v), (Mu, Mv) = vecs[:2], outs[:2]
    w = np.asarray(np.float32(a * u + b * v), float)
    Mw = ps.check_like(ctx, name + ":structure", ctx.call(name, mv, ps.to_tree(w)))
    n = max(np.linalg.norm(u), np.linalg.norm(v), 1e-30)
    ctx.close(name + ":linear", Mw, a * Mu + b * Mv, tol=4 * tol + 2e-6, floor=scale * n)
    ctx.close(name + ":symmetric", np.array([u @ Mv]), np.array([v @ Mu]), tol=4 * tol,
              floor=scale * n * n)
    if convex:
        for x, Mx in zip(vecs, outs, strict=True):
            ctx.true(name + ":psd", x @ Mx >= -tol * scale * (x @ x) - 1e-30, got=x @ Mx,
                     scale=scale)


def dense_of_mv(ctx, label, mv, n, dtype=None):
    """Dense matrix of a flat product, column by column."""
    cols = []
    for i in range(n):
        e = np.zeros(n)
        e[i] = 1
        cols.append(to_np(ctx.call(label, mv, dev(e, dtype))).reshape(-1))
    return np.stack(cols, axis=1)


def dense_of_tree_mv(ctx, label, mv, ps, structure=True):
    cols = []
    for i in range(ps.size):
        e = np.zeros(ps.size)
        e[i] = 1
        res = ctx.call(label, mv, ps.to_tree(e))
        cols.append(ps.check_like(ctx, label + ":structure", res))
    return np.stack(cols, axis=1)


class Recorder:
    """A re-iterable loader that records what it served."""

    def __init__(self, batches):
        self.batches = list(batches)
        self.log, self.starts, self.ends = [], 0, 0

    def __iter__(self):
        self.starts += 1
        for i, b in enumerate(self.batches):
            self.log.append(i)
            yield b
        self.ends += 1

    def __len__(self):
        return len(self.batches)


def snapshot(tree):
    """Deep value snapshot of anything a caller passes in."""
    if isinstance(tree, dict):
        return ("d", type(tree).__name__, [(k, snapshot(v)) for k, v in tree.items()])
    if isinstance(tree, (list, tuple)):
        return (type(tree).__name__, [snapshot(v) for v in tree])
    if isinstance(tree, (jax.Array, np.ndarray, np.generic)):
        try:
            a = np.asarray(tree)
        except TypeError:
            a = np.asarray(jax.random.key_data(tree))
        return ("a", str(a.dtype), a.shape, a.tobytes())
    if callable(tree) or tree is None or isinstance(tree, (int, float, str, bool)):
        return ("v", repr(tree) if not callable(tree) else id(tree))
    if hasattr(tree, "tree_flatten"):
        return ("t", snapshot(list(tree.tree_flatten()[0])))
    return ("o", id(tree))


def must(cond, *info):
    if not cond:
        raise CaseViolation(*info)


def jfloat():
    return jnp.float64 if jax.config.jax_enable_x64 else jnp.float32
