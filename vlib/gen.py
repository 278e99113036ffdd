"""Workload generators: parameter pytrees, models, data, losses, matrices.

Every value is representable in float32, so both precision modes see the same problem
and the float64 oracle uses exactly the numbers the library got.
"""

import collections

import jax
import jax.numpy as jnp
import numpy as np


def f32(x):
    return np.asarray(x, dtype=np.float32).astype(np.float64)


def dev(x, dtype=None):
    """To a jax array of the ambient float dtype."""
    a = np.asarray(x)
    if dtype is not None:
        return jnp.asarray(a, dtype=dtype)
    if a.dtype.kind == "f":
        return jnp.asarray(a, dtype=jnp.float64 if jax.config.jax_enable_x64 else jnp.float32)
    return jnp.asarray(a)


# ---------------------------------------------------------------------------
# containers
# ---------------------------------------------------------------------------
Pair = collections.namedtuple("Pair", ["second", "first"])


@jax.tree_util.register_pytree_node_class
class Node:
    """A custom container whose children are in a non-alphabetical order."""

    def __init__(self, zeta, alpha):
        self.zeta, self.alpha = zeta, alpha

    def tree_flatten(self):
        return (self.zeta, self.alpha), "meta"

    @classmethod
    def tree_unflatten(cls, aux, ch):
        assert aux == "meta"
        return cls(*ch)


STYLES = ["dict", "revdict", "nested", "tuple", "list", "named", "custom", "none",
          "mixed", "intkeys", "ordered"]


def pack(style, leaves):
    """Leaves (list) into a container; returns (tree, unpack)."""
    n = len(leaves)
    half = n // 2
    if style == "leaf":  # the parameters are one array
        return leaves[0], lambda t: [t]
    if style == "dict":
        names = [f"w{i}" for i in range(n)]
        return dict(zip(names, leaves)), lambda t: [t[k] for k in names]
    if style == "revdict":  # leaf order differs from model order
        names = [f"{chr(122 - i)}" for i in range(n)]
        return dict(zip(names, leaves)), lambda t: [t[k] for k in names]
    if style == "ordered":
        names = [f"{chr(122 - i)}" for i in range(n)]
        return (collections.OrderedDict(zip(names, leaves)),
                lambda t: [t[k] for k in names])
    if style == "intkeys":
        return ({10 - i: v for i, v in enumerate(leaves)},
                lambda t: [t[10 - i] for i in range(n)])
    if style == "nested":
        t = {"b": {f"x{i}": v for i, v in enumerate(leaves[:half])},
             "a": {"c": {f"y{i}": v for i, v in enumerate(leaves[half:])}}}
        return t, lambda t: ([t["b"][f"x{i}"] for i in range(half)]
                             + [t["a"]["c"][f"y{i}"] for i in range(n - half)])
    if style == "tuple":
        return tuple(leaves), lambda t: list(t)
    if style == "list":
        return list(leaves), lambda t: list(t)
    if style == "named":
        return (Pair(second=list(leaves[half:]), first=tuple(leaves[:half])),
                lambda t: list(t.first) + list(t.second))
    if style == "custom":
        return (Node(zeta=list(leaves[half:]), alpha=tuple(leaves[:half])),
                lambda t: list(t.alpha) + list(t.zeta))
    if style == "none":
        return ({"a": None, "b": list(leaves), "c": [None, ()]},
                lambda t: list(t["b"]))
    if style == "mixed":
        return ({"q": (leaves[half:], {"e": {}}), "p": tuple(leaves[:half])},
                lambda t: list(t["p"]) + list(t["q"][0]))
    raise KeyError(style)


def tree_flat_np(tree):
    """Oracle flattening: leaf order, row-major, float64."""
    ls = [np.asarray(x, dtype=np.float64).reshape(-1) for x in jax.tree.leaves(tree)]
    return np.concatenate(ls) if ls else np.zeros(0)


class ParamSpace:
    """A parameter pytree with an independent flat <-> tree map."""

    def __init__(self, style, arrays):
        self.style = style
        self.shapes = [a.shape for a in arrays]
        self.tree_np, self.unpack = pack(style, list(arrays))
        ids, k = [], 0
        for a in arrays:
            ids.append(np.arange(k, k + a.size).reshape(a.shape))
            k += a.size
        idt, _ = pack(style, ids)
        # position in the flat vector -> position in model order
        self.order = np.concatenate(
            [np.asarray(x).reshape(-1) for x in jax.tree.leaves(idt)]).astype(int)
        self.size = k
        self.struct = jax.tree.structure(self.tree_np)
        self.tree = jax.tree.map(dev, self.tree_np)
        self.theta_model = np.concatenate([a.reshape(-1) for a in arrays])
        self.theta = self.theta_model[self.order]

    def arrays_from_flat(self, flat):
        """Flat vector (leaf order) -> arrays in model order, any dtype."""
        m = np.empty(self.size, dtype=np.asarray(flat).dtype)
        m[self.order] = flat
        out, k = [], 0
        for s in self.shapes:
            z = int(np.prod(s))
            out.append(m[k:k + z].reshape(s))
            k += z
        return out

    def to_tree(self, flat, dtype=None):
        arrs = self.arrays_from_flat(np.asarray(flat, dtype=np.float64))
        t, _ = pack(self.style, [dev(a, dtype) for a in arrs])
        return t

    def check_like(self, ctx, name, tree):
        """A result has the parameters' structure and shapes."""
        ok = ctx.true(name, jax.tree.structure(tree) == self.struct,
                      got=jax.tree.structure(tree), want=self.struct)
        if ok:
            got = [tuple(np.shape(x)) for x in jax.tree.leaves(tree)]
            want = [tuple(x.shape) for x in jax.tree.leaves(self.tree_np)]
            ok = ctx.true(name, got == want, got=got, want=want)
        if not ok:
            from vlib.core import CaseViolation

            raise CaseViolation
        return tree_flat_np(tree)


# ---------------------------------------------------------------------------
# models: fn(xp, x, leaves) usable with numpy complex arrays and with jnp
# ---------------------------------------------------------------------------
def _act(xp, name, z):
    if name == "tanh":
        return xp.tanh(z)
    if name == "sin":
        return xp.sin(z)
    if name == "softplus":
        return xp.log(1 + xp.exp(z))
    if name == "square":
        return z * z
    if name == "relu":
        return xp.where(z.real > 0, z, 0 * z)
    raise KeyError(name)


class Model:
    """A model with its parameter space and an independent Jacobian."""

    def __init__(self, kind, style, in_shape, out_shape, arrays, fn, linear, smooth=True):
        self.kind, self.in_shape, self.out_shape = kind, in_shape, out_shape
        self.ps = ParamSpace(style, [f32(a) for a in arrays])
        self.fn, self.linear, self.smooth = fn, linear, smooth
        self.P = self.ps.size
        self.C = int(np.prod(out_shape)) if out_shape else 1
        unpack = self.ps.unpack

        def model_fn(input, params):  # noqa: A002
            return fn(jnp, input, unpack(params))

        self.model_fn = model_fn
        self.params = self.ps.tree

    # float64 / complex128 oracle
    def out(self, x, flat=None):
        flat = self.ps.theta if flat is None else flat
        return np.asarray(self.fn(np, np.asarray(x), self.ps.arrays_from_flat(np.asarray(flat))))

    def jac(self, x, flat=None):
        """(C, P) Jacobian by the complex step."""
        flat = self.ps.theta if flat is None else np.asarray(flat, float)
        J = np.zeros((self.C, self.P))
        h = 1e-30
        for p in range(self.P):
            z = flat.astype(complex)
            z[p] += 1j * h
            J[:, p] = np.imag(self.out(x, z)).reshape(-1) / h
        return J


def make_model(ctx, *, kinds=None, styles=None, out=None, in_shape=None, max_c=5, small=False,
               smooth_only=False, linear=None, scale=1.0):
    """out: None (any) | 'vec' (C,) | 'scalar' () | 'mat' (H, W) | explicit tuple."""
    rng = ctx.rng
    explicit = kinds is not None
    kinds = kinds or ["affine", "features", "mlp", "poly", "scaled", "conv", "partial",
                      "deep"]
    if linear is True:
        kinds = [k for k in kinds if k in {"affine", "features"}]
    if not explicit and styles is None and not linear:
        kinds = [*kinds, "bare"]
    kind = ctx.choice(*kinds)
    style = "leaf" if kind == "bare" else ctx.choice(*(styles or STYLES))
    if in_shape is None:
        in_shape = ctx.choice((1,), (2,), (3,), (3,), (2, 2), ())
    d = int(np.prod(in_shape)) if in_shape else 1
    if out is None:
        out = ctx.choice("vec", "vec", "vec", "scalar", "mat")
    if out == "vec":
        out_shape = (11 if ctx.flip(0.06) else ctx.choice(1, 2, 3, 3, max_c),)
    elif out == "scalar":
        out_shape = ()
    elif out == "mat":
        out_shape = ctx.choice((2, 2), (1, 3), (2, 1), (3, 2))
    else:
        out_shape = tuple(out)
    C = int(np.prod(out_shape)) if out_shape else 1
    r = lambda *s: scale * rng.normal(size=s)  # noqa: E731
    act = ctx.choice("tanh", "sin", "softplus", "square") if smooth_only else ctx.choice(
        "tanh", "tanh", "sin", "softplus", "square", "relu")

    def vec(xp, x):
        return xp.reshape(x, (-1,))

    def fin(xp, z):
        return xp.reshape(z, out_shape)

    lin = kind in {"affine", "features"}
    smooth = act != "relu"
    if kind == "affine":
        arrays = [r(d, C), r(C)]

        def fn(xp, x, p):
            return fin(xp, vec(xp, x) @ p[0] + p[1])
    elif kind == "features":
        arrays = [r(2 * d + 1, C), r(1, C), r()]

        def fn(xp, x, p):
            v = vec(xp, x)
            phi = xp.concatenate([v, xp.sin(v), xp.ones_like(v[:1])])
            return fin(xp, phi @ p[0] + p[1][0] + p[2])
    elif kind in {"mlp", "deep", "partial"}:
        h = 2 if small == "fixed" else ctx.choice(1, 2, 3) if small else ctx.choice(1, 2, 4)
        arrays = [r(d, h), r(h), r(h, C), r(C)]
        if kind == "deep":
            arrays += [r(h, h)]
        dead_i = -1
        if kind == "partial":  # a leaf with no influence on the output
            dead_i = ctx.choice(0, 2, 4)
            arrays.insert(dead_i, r(1, 2))

        def fn(xp, x, p):
            if dead_i >= 0:
                p = [a for i, a in enumerate(p) if i != dead_i]
            z = _act(xp, act, vec(xp, x) @ p[0] + p[1])
            if kind == "deep":
                z = xp.tanh(z @ p[4])
            return fin(xp, z @ p[2] + p[3])
    elif kind == "bare":
        arrays = [r(d + 1, C)]

        def fn(xp, x, p):
            return fin(xp, _act(xp, act, vec(xp, x) @ p[0][:-1] + p[0][-1]))
    elif kind == "poly":
        arrays = [0.7 * r(d), r(C), r(C), r(C)]
        smooth = True

        def fn(xp, x, p):
            s = vec(xp, x) @ p[0]
            return fin(xp, p[1] + p[2] * s + p[3] * s * s)
    elif kind == "scaled":
        arrays = [r(), r(d, C), r(1, 1, C)]

        def fn(xp, x, p):
            return fin(xp, p[0] * _act(xp, act, vec(xp, x) @ p[1] + p[2][0, 0]))
    elif kind == "conv":
        k = min(2, d)
        arrays = [r(k), r(d - k + 1, C), r(C)]

        def fn(xp, x, p):
            v = vec(xp, x)
            win = xp.stack([v[i:i + k] for i in range(d - k + 1)])
            return fin(xp, _act(xp, act, win @ p[0]) @ p[1] + p[2])
    else:
        raise KeyError(kind)
    m = Model(kind, style, tuple(in_shape), tuple(out_shape), arrays, fn, lin,
              smooth or lin)
    ctx.desc(model=kind, style=style, act=None if lin or kind == "poly" else act,
             in_shape=list(in_shape), out_shape=list(out_shape), P=m.P)
    return m


def make_inputs(ctx, model, n, scale=1.0):
    return f32(scale * ctx.rng.normal(size=(n, *model.in_shape)))


# ---------------------------------------------------------------------------
# losses
# ---------------------------------------------------------------------------
def np_softmax(z, axis=-1):
    z = np.asarray(z, float)
    e = np.exp(z - z.max(axis=axis, keepdims=True))
    return e / e.sum(axis=axis, keepdims=True)


def np_sigmoid(z):
    z = np.asarray(z, float)
    return np.where(z >= 0, 1 / (1 + np.exp(-np.abs(z))), np.exp(-np.abs(z)) / (1 + np.exp(-np.abs(z))))


def np_softplus(z):
    z = np.asarray(z, float)
    return np.maximum(z, 0) + np.log1p(np.exp(-np.abs(z)))


class Loss:
    """name, what is handed to the library, per-sample value / gradient / Hessian."""

    def __init__(self, name, lib, value, grad, hess, convex):
        self.name, self.lib = name, lib
        self.value, self.grad, self.hess, self.convex = value, grad, hess, convex


def _onehot(y, C):
    y = np.asarray(y)
    if y.ndim and y.size == C and y.shape == (C,):
        return y.astype(float)
    e = np.zeros(C)
    e[int(y)] = 1
    return e


def make_loss(ctx, name, lib=None):
    """lib None draws between the enum and its string."""
    import laplax.enums as en

    L = en.LossFn
    pick = lambda e: (ctx.choice(e, str(e.value)) if lib is None else lib)  # noqa: E731
    fl = lambda a: np.asarray(a, float).reshape(-1)  # noqa: E731
    if name == "mse":
        return Loss(name, pick(L.MSE),
                    lambda p, t: float(np.sum((fl(p) - fl(t)) ** 2)),
                    lambda p, t: 2 * (fl(p) - fl(t)),
                    lambda p, t: 2 * np.eye(np.size(p)), True)
    if name == "cross_entropy":
        def val(p, t):
            z = fl(p)
            lse = z.max() + np.log(np.sum(np.exp(z - z.max())))
            return float(-np.sum(_onehot(t, z.size) * (z - lse)))

        def grad(p, t):
            o = _onehot(t, np.size(p))
            return o.sum() * np_softmax(fl(p)) - o

        def hess(p, t):
            q = np_softmax(fl(p))
            return np.diag(q) - np.outer(q, q)
        return Loss(name, pick(L.CROSS_ENTROPY), val, grad, hess, True)
    if name == "binary_cross_entropy":
        def val(p, t):
            z, y = fl(p), fl(t)
            return float(np.sum(y * np_softplus(-z) + (1 - y) * np_softplus(z)))

        def hess(p, t):
            q = np_sigmoid(fl(p))
            return np.diag(q * np_sigmoid(-fl(p)))
        return Loss(name, pick(L.BINARY_CROSS_ENTROPY), val,
                    lambda p, t: np_sigmoid(fl(p)) - fl(t), hess, True)
    if name == "none":
        return Loss(name, pick(L.NONE), None, None, lambda p, t: np.eye(np.size(p)), True)
    if name == "huber":
        return Loss(name, lambda p, t: jnp.sum(jnp.sqrt(1 + (p - t) ** 2)),
                    lambda p, t: float(np.sum(np.sqrt(1 + (fl(p) - fl(t)) ** 2))),
                    lambda p, t: (fl(p) - fl(t)) / np.sqrt(1 + (fl(p) - fl(t)) ** 2),
                    lambda p, t: np.diag((1 + (fl(p) - fl(t)) ** 2) ** -1.5), True)
    if name == "poisson":
        return Loss(name, lambda p, t: jnp.sum(jnp.exp(0.5 * p) - 0.5 * t * p),
                    lambda p, t: float(np.sum(np.exp(0.5 * fl(p)) - 0.5 * fl(t) * fl(p))),
                    lambda p, t: 0.5 * np.exp(0.5 * fl(p)) - 0.5 * fl(t),
                    lambda p, t: np.diag(0.25 * np.exp(0.5 * fl(p))), True)
    if name == "cosine":  # not convex
        return Loss(name, lambda p, t: jnp.sum(jnp.cos(p - t)),
                    lambda p, t: float(np.sum(np.cos(fl(p) - fl(t)))),
                    lambda p, t: -np.sin(fl(p) - fl(t)),
                    lambda p, t: np.diag(-np.cos(fl(p) - fl(t))), False)
    if name == "indexed":  # looks its target up
        def lse(p):
            z = fl(p)
            return float(z.max() + np.log(np.sum(np.exp(z - z.max()))))
        return Loss(name, lambda p, t: jax.nn.logsumexp(p) - p[t],
                    lambda p, t: lse(p) - float(fl(p)[int(t)]),
                    lambda p, t: np_softmax(fl(p)) - np.eye(np.size(p))[int(t)],
                    lambda p, t: np.diag(np_softmax(fl(p)))
                    - np.outer(np_softmax(fl(p)), np_softmax(fl(p))), True)
    if name == "coupled":  # the outputs interact
        w = lambda p: 1.0 / (1.0 + np.arange(np.size(p)))  # noqa: E731
        s = lambda p, t: float(np.sum(w(p) * (fl(p) - fl(t))))  # noqa: E731

        def lib_coupled(p, t):
            r = p - t
            m = jnp.sum(jnp.asarray(w(p).reshape(np.shape(p)), r.dtype) * r)
            return jnp.sqrt(1 + m ** 2) + 0.5 * jnp.sum(r * r)
        return Loss(name, lib_coupled,
                    lambda p, t: float(np.sqrt(1 + s(p, t) ** 2)
                                       + 0.5 * np.sum((fl(p) - fl(t)) ** 2)),
                    lambda p, t: s(p, t) / np.sqrt(1 + s(p, t) ** 2) * w(p) + fl(p) - fl(t),
                    lambda p, t: (1 + s(p, t) ** 2) ** -1.5 * np.outer(w(p), w(p))
                    + np.eye(np.size(p)), True)
    raise KeyError(name)


def make_targets(ctx, loss_name, preds, onehot=None):
    """Targets for a stack of predictions (N, *out)."""
    rng = ctx.rng
    n = preds.shape[0]
    if loss_name == "indexed":
        return rng.integers(0, preds.shape[-1], size=n).astype(np.int32)
    if loss_name == "cross_entropy":
        C = preds.shape[-1]
        y = rng.integers(0, C, size=n)
        if onehot is None:
            onehot = ctx.flip(0.4)
        ctx.desc(onehot=bool(onehot))
        if not onehot:
            return y.astype(np.int32)
        kind = ctx.choice("float", "float", "int", "smooth")
        ctx.desc(labels=kind)
        e = np.eye(C)[y]
        if kind == "int":
            return e.astype(np.int32)
        # smoothing by a power of two: the labels still add up to one
        return f32(e * 0.75 + 0.25 * (np.roll(e, 1, -1))) if kind == "smooth" else e
    if loss_name == "binary_cross_entropy":
        y = rng.integers(0, 2, size=preds.shape)
        kind = ctx.choice("int", "int", "float", "soft")
        ctx.desc(labels=kind)
        if kind == "soft":
            return f32(rng.uniform(size=preds.shape))
        return y.astype(np.int32) if kind == "int" else y.astype(float)
    return f32(preds + rng.normal(size=preds.shape))


# ---------------------------------------------------------------------------
# problems (model + data + loss) and their dense oracles
# ---------------------------------------------------------------------------
class Problem:
    def __init__(self, model, loss, X, Y):
        self.model, self.loss, self.X, self.Y = model, loss, X, Y
        self.N = len(X)
        self.P = model.P
        self.data = {"input": dev(X), "target": dev(Y)}
        self.params, self.model_fn = model.params, model.model_fn

    def J(self):
        return np.stack([self.model.jac(x) for x in self.X])

    def ggn(self, sel=None):
        G = np.zeros((self.P, self.P))
        for i in range(self.N) if sel is None else sel:
            J = self.model.jac(self.X[i])
            H = self.loss.hess(self.model.out(self.X[i]), self.Y[i])
            G += J.T @ H @ J
        return G

    def loss_sum(self, flat=None):
        return sum(self.loss.value(self.model.out(x, flat), y)
                   for x, y in zip(self.X, self.Y, strict=True))

    def grad(self, flat=None):
        g = np.zeros(self.P)
        for x, y in zip(self.X, self.Y, strict=True):
            g += self.model.jac(x, flat).T @ self.loss.grad(self.model.out(x, flat), y)
        return g

    def hess_fd(self):
        """Hessian by Richardson-extrapolated central differences of the exact
        gradient (independent of the AD composition under test)."""
        H = np.zeros((self.P, self.P))
        th = self.model.ps.theta
        for p in range(self.P):
            e = np.zeros(self.P)
            e[p] = 1

            def D(h):
                return (self.grad(th + h * e) - self.grad(th - h * e)) / (2 * h)  # noqa: B023

            h = 2e-3
            a, b, c = D(h), D(h / 2), D(h / 4)
            ab, bc = (4 * b - a) / 3, (4 * c - b) / 3
            H[p] = (16 * bc - ab) / 15
        return H


LOSSES_VEC = ["mse", "cross_entropy", "binary_cross_entropy", "huber", "poisson", "cosine"]
LOSSES_SAMPLE = [*LOSSES_VEC, "coupled", "indexed"]  # applied to one prediction at a time


def make_problem(ctx, losses=None, n=None, model=None, onehot=None, lib=None, xscale=1.0, **mk):
    losses = list(losses or LOSSES_VEC)
    name = ctx.choice(*losses)
    if model is None:
        o = mk.get("out")
        if name in {"cross_entropy", "indexed"} and (o is None or (isinstance(o, tuple) and len(o) != 1)):
            mk["out"] = "vec" if o is None else (3,)
        model = make_model(ctx, **mk)
    loss = make_loss(ctx, name, lib)
    n = ctx.choice(1, 2, 3, 5, 8) if n is None else n
    X = make_inputs(ctx, model, n, xscale)
    preds = np.stack([model.out(x) for x in X])
    Y = make_targets(ctx, name, preds, onehot)
    ctx.desc(loss=name, N=n)
    return Problem(model, loss, X, Y)


# ---------------------------------------------------------------------------
# matrices
# ---------------------------------------------------------------------------
def psd(ctx, n, rank=None, lo=-1.0, hi=1.0):
    """PSD matrix with log-uniform spectrum (10**lo..10**hi) of the given rank."""
    rank = n if rank is None else rank
    Q, _ = np.linalg.qr(ctx.rng.normal(size=(n, n)))
    ev = np.zeros(n)
    ev[:rank] = 10 ** ctx.rng.uniform(lo, hi, size=rank)
    A = (Q * ev) @ Q.T
    A = f32((A + A.T) / 2)
    return A


def sym(ctx, n):
    A = ctx.rng.normal(size=(n, n))
    return f32((A + A.T) / 2)


def mv_from_dense(A, ps=None):
    """Tree (or flat, if ps is None) matrix-vector product of a dense matrix."""
    Aj = dev(A)
    if ps is None:
        return lambda v: jnp.asarray(Aj, v.dtype) @ v

    def mv(t):
        flat = jnp.concatenate([jnp.ravel(x) for x in jax.tree.leaves(t)])
        res = jnp.asarray(Aj, flat.dtype) @ flat
        out, k = [], 0
        for x in jax.tree.leaves(t):
            out.append(res[k:k + x.size].reshape(x.shape))
            k += x.size
        return jax.tree.unflatten(jax.tree.structure(t), out)
    return mv


def make_space(ctx, max_p=12, styles=None, min_p=1, big=0.0):
    """A random parameter space (no model); with probability big one beyond max_p."""
    if big and ctx.flip(big):
        shapes = [ctx.choice((7, 9), (40,), (3, 4, 5), (8, 5)), *[
            ctx.choice((), (5,), (13,), (2, 3), (1, 17), (4, 3)) for _ in range(ctx.int(1, 5))]]
        ctx.rng.shuffle(shapes)
        style = ctx.choice(*(styles or STYLES))
        ctx.desc(style=style, shapes=[list(s) for s in shapes])
        return ParamSpace(style, [f32(ctx.rng.normal(size=s)) for s in shapes])
    if styles is None and ctx.flip(0.08):
        shape = ctx.choice(*[s for s in ((1,), (4,), (2, 2), (2, 3), (1, 5), (2, 1, 2))
                             if min_p <= np.prod(s) <= max_p])
        ctx.desc(style="leaf", shapes=[list(shape)])
        return ParamSpace("leaf", [f32(ctx.rng.normal(size=shape))])
    while True:
        n = ctx.int(1, 4)
        shapes = [ctx.choice((), (1,), (2,), (3,), (2, 2), (1, 3), (2, 1, 2), (4,))
                  for _ in range(n)]
        tot = sum(int(np.prod(s)) for s in shapes)
        if min_p <= tot <= max_p:
            break
    style = ctx.choice(*(styles or STYLES))
    ps = ParamSpace(style, [f32(ctx.rng.normal(size=s)) for s in shapes])
    ctx.desc(style=style, shapes=[list(s) for s in shapes])
    return ps


def rand_flat(ctx, n, scale=1.0):
    return f32(scale * ctx.rng.normal(size=n))


def partition(ctx, n, allow_empty=False):
    """A random composition of n into batch sizes."""
    mode = ctx.choice("one", "ones", "even", "random", "random", "lastsmall", "firstsmall")
    if mode == "one" or n == 1:
        return [n]
    if mode == "ones":
        return [1] * n
    if mode == "even":
        b = ctx.choice(*[k for k in range(1, n + 1) if n % k == 0])
        return [b] * (n // b)
    if mode == "lastsmall":
        b = ctx.int(1, n - 1)
        out = [b] * (n // b)
        if n % b:
            out.append(n % b)
        return out
    if mode == "firstsmall":
        b = ctx.int(1, n - 1)
        return [b, n - b]
    out, left = [], n
    while left:
        k = ctx.int(1, left)
        out.append(k)
        left -= k
    return out
