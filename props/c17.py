"""C17: pytree algebra and flattening against numpy on the flattened vector."""

import jax
import jax.numpy as jnp
import numpy as np

from laplax.util import flatten as fl
from laplax.util import tree as tr
from vlib import common, gen
from vlib.core import CaseViolation, to_np
from vlib.gen import dev

RULE = ("tree operations with distinct (family, precision, structure, shapes, operation, "
        "options) compared leaf by leaf with numpy on the flattened vector")
FAMILIES = {
    "flatten": (160, 7000),
    "functions": (120, 4000),
    "partial": (120, 4000),
    "algebra": (100, 7000),
    "basis": (70, 4000),
    "matvec": (70, 3500),
    "random": (36, 1500),
}
REQUIRED = ["roundtrip", "order", "conjugate", "factory", "argnums", "unravel", "partial",
            "elementwise", "statistics", "slice", "size", "constants", "basis", "eye", "get",
            "matvec", "partialmatvec", "allclose", "random", "structure",
            "arguments-untouched"]


def tol(ctx):
    return 1e-13 if ctx.x64 else 2e-6


def shapes_of(ctx, lead=None, max_leaves=5):
    n = ctx.int(1, max_leaves)
    tails = [ctx.choice((), (1,), (2,), (3,), (2, 2), (1, 3), (2, 1, 2), (4,), (2, 3), (1, 1),
                        (0,) if ctx.flip(0.3) else (2,)) for _ in range(n)]
    if sum(int(np.prod(t)) for t in tails) == 0:
        tails[0] = (2,)
    return [((lead,) if lead else ()) + t for t in tails]


class Tree:
    """A library-side tree and its leaves as numpy, in leaf order."""

    def __init__(self, ctx, shapes=None, style=None, scale=1.0, positive=False, ints=False):
        shapes = shapes or shapes_of(ctx)
        self.style = style or ctx.choice(*gen.STYLES)
        if ints:
            arrs = [ctx.rng.integers(-9, 9, size=s) for s in shapes]
        else:
            arrs = [gen.f32(scale * ctx.rng.normal(size=s)) for s in shapes]
        if positive:
            arrs = [np.abs(a) for a in arrs]
        np_tree, _ = gen.pack(self.style, arrs)
        self.leaves = jax.tree.leaves(np_tree)
        self.struct = jax.tree.structure(np_tree)
        self.tree = jax.tree.map(dev, np_tree)
        self.flat = np.concatenate([np.reshape(a, -1) for a in self.leaves])
        self.n = self.flat.size
        ctx.desc(style=self.style, shapes=[list(s) for s in shapes])


def like(ctx, name, got, t, leaves, tol=0.0):
    """Structure of t, leaves as given."""
    if not ctx.true("structure", jax.tree.structure(got) == t.struct,
                    got=jax.tree.structure(got), want=t.struct, op=name):
        raise CaseViolation
    for g, w in zip(jax.tree.leaves(got), leaves, strict=True):
        ctx.close(name, g, w, tol=tol, floor=1e-30)


def maybe_jit(ctx, f, p=0.1):
    return jax.jit(f) if ctx.flip(p) else f


def family_flatten(ctx):
    t = Tree(ctx, ints=ctx.flip(0.15))
    snap = common.snapshot(t.tree)
    flat = ctx.call("full_flatten", maybe_jit(ctx, fl.full_flatten), t.tree)
    ctx.close("order", flat, t.flat, tol=0.0 if t.flat.dtype.kind != "f" else 1e-12)
    f, u = ctx.call("create_pytree_flattener", fl.create_pytree_flattener, t.tree)
    a = ctx.call("flatten", f, t.tree)
    ctx.close("order", a, t.flat, tol=1e-12)
    back = ctx.call("unflatten", maybe_jit(ctx, u), a)
    like(ctx, "roundtrip", back, t, t.leaves, tol=1e-12)
    ctx.true("roundtrip", all(x.dtype == y.dtype for x, y in zip(
        jax.tree.leaves(back), jax.tree.leaves(t.tree), strict=True)))
    v = gen.rand_flat(ctx, t.n)
    ctx.close("roundtrip", f(ctx.call("unflatten", u, dev(v))), v, tol=1e-12)
    # the maps depend on the layout only, so they serve another tree of that layout
    o = Tree(ctx, shapes=[np.shape(x) for x in t.leaves], style="list")
    other = jax.tree.unflatten(t.struct, [dev(x) for x in o.leaves])
    ctx.close("order", f(other), o.flat, tol=1e-12)
    # under transformations of the flat vector
    B = np.stack([v, 2 * v, -v])
    batch = ctx.call("unflatten:vmap", jax.vmap(u), dev(B))
    for g, w in zip(jax.tree.leaves(batch), t.leaves, strict=True):
        ctx.true("structure", g.shape == (3, *np.shape(w)), got=g.shape)
    ctx.close("roundtrip", jax.vmap(f)(batch), B, tol=1e-12)
    # arrays with a batch axis on either side
    nd = ctx.choice(2, 2, 3, 4)
    dims = [ctx.int(1, 3) for _ in range(nd)]
    pos = ctx.int(0, nd - 1)
    axis = pos - ctx.choice(0, nd)
    dims[pos] = t.n
    ctx.desc(dims=dims, axis=axis)
    arr = gen.f32(ctx.rng.normal(size=dims))
    got = ctx.call("unravel_array_into_pytree", fl.unravel_array_into_pytree, t.tree, axis,
                   dev(arr))
    k, want = 0, []
    for x in t.leaves:
        z = int(np.prod(np.shape(x)))
        part = np.take(arr, np.arange(k, k + z), axis=pos)
        want.append(part.reshape((*dims[:pos], *np.shape(x), *dims[pos + 1:])))
        k += z
    like(ctx, "unravel", got, t, want, tol=1e-12)
    if ctx.flip(0.3):
        got = ctx.call("unravel_array_into_pytree", fl.unravel_array_into_pytree, t.tree,
                       ctx.choice(0, -1), dev(v))
        like(ctx, "unravel", got, t, jax.tree.leaves(u(v)), tol=1e-6)
    if ctx.flip(0.4):
        mixed_types(ctx)
    ctx.true("arguments-untouched", common.snapshot(t.tree) == snap)


def mixed_types(ctx):
    """Leaves of several types lose nothing on their way into the vector."""
    m = Tree(ctx)
    kinds = [ctx.choice("float", "int32", "bool", "float16", "float32") for _ in m.leaves]
    kinds[ctx.int(0, len(kinds) - 1)] = "float"
    leaves = []
    for x, kd in zip(m.leaves, kinds, strict=True):
        if kd == "int32":
            x = np.round(5 * x).astype(np.int32)
        elif kd == "bool":
            x = x > 0
        elif kd in {"float16", "float32"}:
            x = x.astype(kd)
        leaves.append(x)
    ctx.desc(types=kinds)
    tree = jax.tree.unflatten(m.struct, [
        jnp.asarray(x) if kd != "float" else dev(x) for x, kd in zip(leaves, kinds, strict=True)])
    want = np.concatenate([np.reshape(x, -1).astype(np.float64) for x in leaves])
    flat = ctx.call("full_flatten", maybe_jit(ctx, fl.full_flatten), tree)
    ctx.close("order", flat, want, tol=1e-12)
    f, u = ctx.call("create_pytree_flattener", fl.create_pytree_flattener, tree)
    like(ctx, "roundtrip", ctx.call("unflatten", u, f(tree)), m,
         [x.astype(np.float64) for x in leaves], tol=1e-12)


def family_functions(ctx):
    """Wrapping a function or a factory conjugates it."""
    t = Tree(ctx)
    f, u = fl.create_pytree_flattener(t.tree)
    c = [gen.f32(ctx.rng.normal(size=np.shape(x))) for x in t.leaves]

    def g(tree, *extra, gain=1.0):
        ls = jax.tree.leaves(tree)
        out = [gain * (jnp.sin(x) * dev(k) + sum(extra, 0.0)) for x, k in zip(ls, c, strict=True)]
        return jax.tree.unflatten(jax.tree.structure(tree), out)

    def want(v, add=0.0, gain=1.0):
        cf = np.concatenate([x.reshape(-1) for x in c])
        return gain * (np.sin(v) * cf + add)
    v = gen.rand_flat(ctx, t.n)
    e = float(ctx.int(-3, 3))
    gain = ctx.choice(1.0, 2.0)
    kw = {} if gain == 1.0 else {"gain": gain}
    tl = 1e-12 if ctx.x64 else 1e-5
    w = ctx.call("flatten_function", fl.flatten_function, g, t.tree)
    ctx.close("conjugate", ctx.call("flatten_function", maybe_jit(ctx, w), dev(v)), want(v),
              tol=tl, floor=1.0)
    extra = (e,) if ctx.flip() else ()
    ctx.close("conjugate", ctx.call("flatten_function", w, dev(v), *extra, **kw),
              want(v, sum(extra), gain), tol=tl, floor=1.0)
    # only one side
    side = ctx.choice("in", "out", "none", "both")
    w = ctx.call("wrap_function", fl.wrap_function, g,
                 **({"input_fn": u} if side in {"in", "both"} else {}),
                 **({"output_fn": f} if side in {"out", "both"} else {}))
    arg = dev(v) if side in {"in", "both"} else u(dev(v))
    r = ctx.call("wrap_function", w, arg, *extra, **kw)
    if side in {"in", "none"}:
        ctx.true("structure", jax.tree.structure(r) == t.struct, got=jax.tree.structure(r))
        r = f(r)
    ctx.close("conjugate", r, want(v, sum(extra), gain), tol=tl, floor=1.0, side=side)
    # another argument position
    k = ctx.int(0, 2)
    seen = []

    def h(*args, **kws):
        seen.append((len(args), [jax.tree.structure(a) == t.struct for a in args], sorted(kws)))
        return [a for i, a in enumerate(args) if i != k], args[k]
    args = [dev(np.float64(i)) for i in range(k)] + [dev(v)] + [dev(np.float64(9.0))] * (2 - k)
    w = ctx.call("wrap_function", fl.wrap_function, h, input_fn=u, argnums=k,
                 output_fn=lambda r: (r[0], f(r[1])))
    rest, val = ctx.call("wrap_function", w, *args, flag=1)
    ctx.close("argnums", val, v, tol=1e-12)
    ctx.true("argnums", seen == [(3, [i == k or t.struct == jax.tree.structure(0.0)
                                      for i in range(3)], ["flag"])], seen=seen)
    ctx.true("argnums", all(a is b for a, b in zip(
        rest, [a for i, a in enumerate(args) if i != k], strict=True)))
    # nesting: conjugation twice is conjugation by the composition
    R = gen.f32(ctx.rng.normal(size=(t.n, t.n)))
    w2 = fl.wrap_function(fl.flatten_function(g, t.tree), input_fn=lambda x: dev(R) @ x,
                          output_fn=lambda y: dev(R.T) @ y)
    ctx.close("conjugate", ctx.call("wrap_function", w2, dev(v)), R.T @ want(R @ v),
              tol=tl * 50, floor=1 + np.abs(R).sum())
    # factories
    made = []

    def factory(state, *, shift=0.0):
        made.append((state, shift))
        return lambda tree: g(tree, shift, gain=state)
    wf = ctx.call("wrap_factory", fl.wrap_factory, factory, u, f)
    ctx.true("factory", made == [], made=made)
    fn = ctx.call("wrap_factory", wf, 2.0, shift=e)
    ctx.true("factory", made == [(2.0, e)], made=made)
    for x in (v, 0.5 * v):
        ctx.close("factory", ctx.call("wrap_factory", fn, dev(x)), want(np.asarray(x), e, 2.0),
                  tol=tl, floor=1.0)
    ctx.true("factory", made == [(2.0, e)], made=made)


def family_partial(ctx):
    """Trees whose leaves share a trailing column axis."""
    cols = ctx.int(1, 4)
    t = Tree(ctx, shapes=[(*s, cols) for s in shapes_of(ctx)])
    M = np.concatenate([x.reshape(-1, cols) for x in t.leaves])
    f, u = ctx.call("create_partial_pytree_flattener", fl.create_partial_pytree_flattener, t.tree)
    a = ctx.call("partial", f, t.tree)
    ctx.close("partial", a, M, tol=1e-12)
    like(ctx, "partial", ctx.call("partial", u, a), t, t.leaves, tol=1e-12)
    N = gen.f32(ctx.rng.normal(size=M.shape))
    ctx.close("partial", f(ctx.call("partial", maybe_jit(ctx, u), dev(N))), N, tol=1e-12)
    v = gen.rand_flat(ctx, cols)
    got = ctx.call("tree_partialmatvec", tr.tree_partialmatvec, t.tree, dev(v))
    like(ctx, "partialmatvec", got, t, [x @ v for x in t.leaves], tol=tol(ctx) * 10)


def family_algebra(ctx):
    sh = shapes_of(ctx)
    t = Tree(ctx, sh)
    o = Tree(ctx, sh, style=t.style)
    snap = common.snapshot([t.tree, o.tree])
    k = tol(ctx)
    L = t.leaves
    like(ctx, "elementwise", ctx.call("add", maybe_jit(ctx, tr.add), t.tree, o.tree), t,
         [a + b for a, b in zip(L, o.leaves, strict=True)], tol=k)
    like(ctx, "elementwise", ctx.call("sub", maybe_jit(ctx, tr.sub), t.tree, o.tree), t,
         [a - b for a, b in zip(L, o.leaves, strict=True)], tol=k)
    like(ctx, "elementwise", ctx.call("neg", tr.neg, t.tree), t, [-a for a in L])
    s = ctx.choice(2.0, -0.5, 0, 3, float(gen.f32(ctx.rng.normal())))
    sc = ctx.choice(s, dev(np.float64(s)))
    like(ctx, "elementwise", ctx.call("mul", tr.mul, sc, t.tree), t, [s * a for a in L], tol=k)
    p = Tree(ctx, sh, positive=True, style=t.style)
    like(ctx, "elementwise", ctx.call("sqrt", tr.sqrt, p.tree), t, [np.sqrt(a) for a in p.leaves],
         tol=k)
    i = Tree(ctx, sh, ints=True)
    like(ctx, "elementwise", ctx.call("invert", tr.invert, i.tree), i, [~a for a in i.leaves])
    b = jax.tree.map(lambda x: x > 0, i.tree)
    like(ctx, "elementwise", ctx.call("invert", tr.invert, b), i, [~(a > 0) for a in i.leaves])
    for fn, c in ((tr.ones_like, 1), (tr.zeros_like, 0)):
        for q in (t, i):
            r = ctx.call("constants", fn, q.tree)
            like(ctx, "constants", r, q, [np.full(np.shape(a), c) for a in q.leaves])
            ctx.true("constants", [x.dtype for x in jax.tree.leaves(r)]
                     == [x.dtype for x in jax.tree.leaves(q.tree)])
    ctx.true("size", ctx.call("get_size", tr.get_size, t.tree) == t.n, want=t.n)
    # statistics over a leading axis
    n = ctx.int(1, 6)
    e = Tree(ctx, shapes_of(ctx, lead=n))
    if all(np.size(x) for x in e.leaves):
        for fn, ref in ((tr.mean, np.mean), (tr.std, np.std), (tr.var, np.var)):
            kw = ctx.choice({"axis": 0}, {"axis": 0}, {}, {"axis": -1}, {"axis": 0,
                                                                        "keepdims": True})
            if ref is not np.mean and n > 1 and kw.get("axis") == 0 and ctx.flip(0.4):
                kw = {**kw, "ddof": 1}
            like(ctx, "statistics", ctx.call("statistics", fn, e.tree, **kw), e,
                 [ref(x, **kw) for x in e.leaves], tol=3e-5 if not ctx.x64 else 1e-11)
        if n > 1:
            c2 = Tree(ctx, [(n, z) for z in (2, ctx.int(2, 4))])
            kw = ctx.choice({"rowvar": False}, {}, {"rowvar": False, "ddof": 0})
            like(ctx, "statistics", ctx.call("cov", tr.cov, c2.tree, **kw), c2,
                 [np.cov(x, **kw) for x in c2.leaves], tol=1e-4 if not ctx.x64 else 1e-11)
    a, b = sorted(ctx.int(0, n) for _ in range(2))
    if ctx.flip(0.2):
        a, b = -n, ctx.choice(-1, n, n + 3)
    like(ctx, "slice", ctx.call("tree_slice", tr.tree_slice, e.tree, a, b), e,
         [x[a:b] for x in e.leaves])
    # comparison
    ctx.true("allclose", bool(ctx.call("allclose", tr.allclose, t.tree, t.tree)))
    pos = ctx.int(0, t.n - 1)
    bad = t.flat.copy()
    bad[pos] += ctx.choice(0.5, 1e3, -2)
    _, u = fl.create_pytree_flattener(t.tree)
    ctx.true("allclose", not bool(tr.allclose(t.tree, u(dev(bad)))), pos=pos)
    ctx.true("allclose", not bool(tr.allclose(u(dev(bad)), t.tree)), pos=pos)
    if ctx.flip(0.2):  # more leaves on one side: refused or not close, never close
        pair = [{"t": t.tree}, {"t": t.tree, "u": jnp.ones(1)}]
        if ctx.flip():
            pair.reverse()
        try:
            verdict = bool(tr.allclose(*pair))
        except (ValueError, TypeError, KeyError):
            verdict = False
        ctx.true("allclose", not verdict, mismatch=True)
    ctx.true("arguments-untouched", common.snapshot([t.tree, o.tree]) == snap)


def family_basis(ctx):
    t = Tree(ctx, shapes_of(ctx, max_leaves=3), ints=ctx.flip(0.1))
    n = t.n
    _, u = fl.create_pytree_flattener(t.tree)
    fn = ctx.choice(tr.basis_vector_from_index,
                    jax.jit(tr.basis_vector_from_index) if ctx.flip(0.3)
                    else tr.basis_vector_from_index)
    for i in sorted({0, n - 1, ctx.int(0, n - 1)}):
        e = np.zeros(n)
        e[i] = 1
        got = ctx.call("basis_vector_from_index", fn, ctx.choice(i, jnp.asarray(i)), t.tree)
        want, k = [], 0
        for x in t.leaves:
            want.append(e[k:k + np.size(x)].reshape(np.shape(x)))
            k += np.size(x)
        like(ctx, "basis", got, t, want)
        g = ctx.call("tree_vec_get", tr.tree_vec_get, t.tree, ctx.choice(i, jnp.asarray(i)))
        ctx.close("get", g, t.flat[i], tol=1e-12)
    leaf = next(x for x in t.leaves if np.size(x))
    j = ctx.int(0, np.size(leaf) - 1)
    ctx.close("get", ctx.call("tree_vec_get", tr.tree_vec_get, dev(leaf), j),
              np.reshape(leaf, -1)[j], tol=1e-12)
    eye = np.eye(n)
    want, k = [], 0
    for x in t.leaves:
        want.append(eye[:, k:k + np.size(x)].reshape(n, *np.shape(x)))
        k += np.size(x)
    like(ctx, "eye", ctx.call("eye_like", maybe_jit(ctx, tr.eye_like), t.tree), t, want)
    if ctx.flip(0.5):
        like(ctx, "eye", ctx.call("eye_like_with_basis_vector", tr.eye_like_with_basis_vector,
                                  t.tree), t, want)


def family_matvec(ctx):
    """tree_matvec on a matrix stored as jax.hessian and jax.jacobian store it: outer tree by
    output leaf, inner by input leaf."""
    t = Tree(ctx, [s for s in shapes_of(ctx, max_leaves=3) if np.prod(s)] or [(2,)])
    v = gen.rand_flat(ctx, t.n)
    vec, k = [], 0
    for x in t.leaves:
        vec.append(v[k:k + np.size(x)].reshape(np.shape(x)))
        k += np.size(x)
    vt = jax.tree.unflatten(t.struct, [dev(x) for x in vec])
    if ctx.flip(0.25):  # a Hessian from automatic differentiation
        A = gen.f32(ctx.rng.normal(size=(t.n, t.n)))
        A = A + A.T

        def q(p):
            z = jnp.concatenate([jnp.ravel(x) for x in jax.tree.leaves(p)])
            return 0.5 * z @ dev(A) @ z
        H = jax.hessian(q)(t.tree)
        ctx.desc(source="hessian")
    else:
        A = gen.f32(ctx.rng.normal(size=(t.n, t.n)))  # A[out, in]
        offs = np.cumsum([0, *[np.size(x) for x in t.leaves]])
        rows = [[dev(A[offs[j]:offs[j + 1], offs[i]:offs[i + 1]].reshape(
            (*np.shape(xj), *np.shape(xi)))) for i, xi in enumerate(t.leaves)]
            for j, xj in enumerate(t.leaves)]
        H = jax.tree.unflatten(t.struct, [jax.tree.unflatten(t.struct, r) for r in rows])
        ctx.desc(source="blocks")
    got = ctx.call("tree_matvec", maybe_jit(ctx, tr.tree_matvec), H, vt)
    w = A @ v
    want, k = [], 0
    for x in t.leaves:
        want.append(w[k:k + np.size(x)].reshape(np.shape(x)))
        k += np.size(x)
    if not ctx.true("structure", jax.tree.structure(got) == t.struct):
        return
    ctx.close("matvec", np.concatenate([to_np(x).reshape(-1) for x in jax.tree.leaves(got)]), w,
              tol=1e-12 if ctx.x64 else 1e-5, floor=np.abs(A).sum(1).max())
    for g, x in zip(jax.tree.leaves(got), want, strict=True):
        ctx.true("structure", g.shape == x.shape, got=g.shape, want=x.shape)


def family_random(ctx):
    t = Tree(ctx, shapes_of(ctx))
    key = ctx.key()
    a = ctx.call("randn_like", tr.randn_like, key, t.tree)
    b = ctx.call("randn_like", tr.randn_like, key, t.tree)
    for x, y, w in zip(jax.tree.leaves(a), jax.tree.leaves(b), t.leaves, strict=True):
        ctx.true("random", x.shape == np.shape(w) and np.array_equal(x, y))
    ctx.true("structure", jax.tree.structure(a) == t.struct)
    vals = np.concatenate([to_np(x).reshape(-1) for x in jax.tree.leaves(a)])
    ctx.true("random", len(np.unique(vals)) == t.n and np.isfinite(vals).all(), vals=vals)
    c = tr.randn_like(jax.random.fold_in(key, 1), t.tree)
    ctx.true("random", not np.array_equal(
        vals, np.concatenate([to_np(x).reshape(-1) for x in jax.tree.leaves(c)])))
    D = gen.f32(ctx.rng.normal(size=(t.n, t.n)))
    mv = gen.mv_from_dense(D)
    f, u = fl.create_pytree_flattener(t.tree)
    s = ctx.call("normal_like", tr.normal_like, key, t.tree, lambda p: u(mv(f(p))))
    ctx.close("random", np.concatenate([to_np(x).reshape(-1) for x in jax.tree.leaves(s)]),
              t.flat + D @ vals, tol=1e-12 if ctx.x64 else 1e-5, floor=np.abs(D).sum(1).max())
