"""C16: streaming reductions over loaders."""

from functools import partial

import jax
import jax.numpy as jnp
import numpy as np

from laplax.util import flatten as fl
from laplax.util import loader as ld
from laplax.util import mv as um
from vlib import common, gen
from vlib.core import to_np
from vlib.gen import dev

RULE = ("streams with distinct (family, precision, partition, result structure, reduction and "
        "options, loader kind, wrapping) whose reduced result was compared with the whole data, "
        "or whose event log was checked")
FAMILIES = {
    "stream": (260, 8000),
    "prefix": (120, 4000),
    "operator": (56, 1600),
    "faults": (120, 4000),
}
REQUIRED = ["reduced", "prefix", "log:loader", "log:transform", "log:function", "log:reduce",
            "arguments", "operator", "operator:dense", "operator:diagonal", "operator:wrapped",
            "reuse", "empty", "fault", "arguments-untouched"]


def tol(ctx):
    return 1e-12 if ctx.x64 else 2e-5


def rows(ctx, n):
    """Per-example results: a pytree of (n, ...) arrays and scalars per batch."""
    tails = [ctx.choice((), (1,), (2,), (2, 3), (0,)) for _ in range(ctx.int(1, 3))]
    style = ctx.choice("array", "dict", "tuple", "nested", "none")
    return style, [gen.f32(ctx.rng.normal(size=(n, *t)) * ctx.choice(1, 1, 100)) for t in tails]


def wrap(style, arrs):
    if style == "array":
        return arrs[0]
    if style == "dict":
        return {f"{chr(122 - i)}": a for i, a in enumerate(arrs)}
    if style == "tuple":
        return tuple(arrs)
    if style == "none":
        return {"x": list(arrs), "y": None}
    return {"p": [arrs[0]], "q": {"r": tuple(arrs[1:])}}


def cut(a, sizes, axis=0):
    return np.split(a, np.cumsum(sizes)[:-1], axis=axis)


def loader_of(ctx, items):
    kind = ctx.choice("list", "tuple", "gen", "rec", "rec", "iter")
    rec = common.Recorder(items)
    ctx.desc(loader=kind)
    if kind == "rec":
        return rec, rec
    if kind == "gen":
        return (x for x in rec), rec
    if kind == "iter":
        return iter(rec), rec
    return (list if kind == "list" else tuple)(items), None


REDS = ["sum", "sum-nokeep", "add", "concat", "mean", "sum-axis", "concat-axis", "custom"]


def reduction(ctx, name, sizes, log):
    """(lib reduction, numpy oracle on the list of per-batch leaves)."""
    if name == "sum":
        return ld.reduce_sum, lambda ps: np.concatenate(ps).sum(0, keepdims=True)
    if name == "sum-nokeep":
        return (partial(ld.reduce_sum, keepdims=False),
                lambda ps: np.concatenate(ps).sum(0))
    if name == "sum-axis":
        keep = ctx.flip()
        return (partial(ld.reduce_sum, axis=-1, keepdims=keep),
                lambda ps: sum(p.sum(-1, keepdims=keep) for p in ps))
    if name == "add":
        return ld.reduce_add, lambda ps: sum(ps[1:], ps[0])
    if name == "concat":
        return ld.reduce_concat, lambda ps: np.concatenate(ps)
    if name == "concat-axis":
        return (partial(ld.reduce_concat, axis=-1),
                lambda ps: np.concatenate(ps, axis=-1))
    if name == "mean":
        return ld.reduce_online_mean, lambda ps: (
            np.concatenate(ps).mean(0) if ps[0].ndim else np.mean(ps))

    def custom(new, state=None):
        log.append((new, state))
        n = 0 if state is None else state
        return jax.tree.map(lambda x: (n + 1) * x, new), n + 1
    return custom, lambda ps: len(ps) * ps[-1]


def family_stream(ctx):
    """The three batch runners with every reduction."""
    n = ctx.choice(1, 2, 3, 7, 7, 12, 12, 48)
    name = ctx.choice(*REDS)
    style, R = rows(ctx, n)
    equal = name in {"add", "sum-axis", "concat-axis"}
    if equal:
        b = ctx.choice(*[k for k in range(1, n + 1) if n % k == 0])
        sizes = [b] * (n // b)
    else:
        sizes = gen.partition(ctx, n)
    if name in {"sum-axis", "concat-axis"}:
        R = [r for r in R if r.ndim > 1] or [gen.f32(ctx.rng.normal(size=(n, 3)))]
    if name == "mean":
        R = [r for r in R if r.size] or [gen.f32(ctx.rng.normal(size=(n, 2)))]
    parts = [[dev(p) for p in cut(r, sizes)] for r in R]
    if name in {"mean", "sum", "sum-nokeep", "concat"} and ctx.flip(0.3):
        # a leaf with its own number of rows in each batch
        own = [ctx.int(1, 4) for _ in sizes]
        R = [*R, gen.f32(ctx.rng.normal(size=(sum(own), 2)))]
        parts.append([dev(p) for p in cut(R[-1], own)])
        ctx.desc(own_rows=own)
    scal = name in {"add", "mean", "custom"} and ctx.flip(0.3)  # one number per batch
    if scal:
        s = gen.f32(ctx.rng.normal(size=len(sizes)))
        parts.append([dev(np.float64(v)) for v in s])
    extra = ctx.choice({}, {"alpha": 2.0}, {"alpha": -0.5, "beta": 1.0})
    args = (dev(np.float64(3.0)),) if ctx.flip(0.3) else ()
    items = [(tuple(p[i] for p in parts), i) for i in range(len(sizes))]
    log = {"t": [], "f": [], "r": []}
    k = float(extra.get("alpha", 1.0)) * (3.0 if args else 1.0)
    default_tr = ctx.flip(0.25)

    def transform(b):
        log["t"].append(int(b[1]))
        return {"leaves": b[0]}

    def function(*a, data, **kw):
        leaves = data["input"] if default_tr else data["leaves"]
        log["f"].append((len(a), sorted(kw)))
        scale = kw.get("alpha", 1.0) * (a[0] if a else 1.0)
        return wrap(style, [scale * x for x in leaves])
    if style == "array" and len(parts) > 1:
        parts = parts[-1:] if scal else parts[:1]
        items = [((parts[0][i],), i) for i in range(len(sizes))]
    red, oracle = reduction(ctx, name, sizes, log["r"])
    data, rec = loader_of(ctx, items)
    how = ctx.choice("process", "execute", "wrapped")
    jit = how != "process" and ctx.flip(0.15)
    kw = {}
    if default_tr:
        if how == "process":
            kw["transform"] = ld.input_target_split
    else:
        kw["transform"] = transform
    if name != "mean" or how == "process" or ctx.flip():
        kw["reduce"] = red
    if jit:
        kw["jit"] = True
    if ctx.flip(0.1) and how != "wrapped":
        kw["verbose_logging"] = True if how == "process" else False
    ctx.desc(red=name, style=style, sizes=sizes, how=how, jit=jit, extra=sorted(extra),
             args=len(args), shapes=[list(p[0].shape) for p in parts], tr=default_tr)
    snap = common.snapshot([list(i[0]) for i in items])
    vl = {"verbose_logging": kw.pop("verbose_logging")} if "verbose_logging" in kw else {}
    if how == "process":
        got = ctx.call("process_batches", ld.process_batches, function, data, kw["transform"],
                       kw["reduce"], *args, **vl, **extra)
    elif how == "execute":
        if args:
            args, k = (), k / 3.0
        got = ctx.call("execute_with_data_loader", ld.execute_with_data_loader, function, data,
                       **kw, **vl, **extra)
    else:
        runner = ctx.call("wrap_function_with_data_loader", ld.wrap_function_with_data_loader,
                     function, data, **kw)
        ctx.true("log:loader", rec is None or rec.log == [], log=rec and rec.log)
        got = ctx.call("wrap_function_with_data_loader", runner, *args, **extra)
    nb = len(sizes)
    if rec is not None:
        ctx.true("log:loader", rec.log == list(range(nb)), log=rec.log, want=nb)
    if not default_tr:
        ctx.true("log:transform", log["t"] == list(range(nb)), log=log["t"], want=nb)
    if not jit:
        ctx.true("log:function", len(log["f"]) == nb, log=log["f"], want=nb)
        ctx.true("arguments", all(f == (len(args), sorted(extra)) for f in log["f"]),
                 log=log["f"], want=(len(args), sorted(extra)))
    if name == "custom":
        ctx.true("log:reduce", len(log["r"]) == nb and [r[1] for r in log["r"]]
                 == [None, *range(1, nb)], log=[r[1] for r in log["r"]])
    want = wrap(style, [oracle([k * np.asarray(x, float) for x in p]) for p in parts])
    gl, gt = jax.tree.flatten(got)
    wl, wt = jax.tree.flatten(want)
    if ctx.true("reduced", gt == wt, got=gt, want=wt):
        for g, w in zip(gl, wl, strict=True):
            ctx.close("reduced", g, w, tol=tol(ctx), floor=max(
                1.0, 3 * np.abs(np.concatenate([np.ravel(r) for r in R])).max(initial=0)))
    ctx.true("arguments-untouched", common.snapshot([list(i[0]) for i in items]) == snap)
    if how == "wrapped" and rec is data:  # used again on a re-iterable loader
        rec.log.clear()
        again = ctx.call("wrap_function_with_data_loader", runner, *args, **extra)
        ctx.true("reuse", rec.log == list(range(nb)), log=rec.log)
        for g, h in zip(jax.tree.leaves(again), gl, strict=True):
            ctx.close("reuse", g, np.asarray(h, float), tol=1e-12 if ctx.x64 else 1e-6)


def family_prefix(ctx):
    """After every batch the reduction holds the answer for what was seen so far."""
    n = ctx.choice(2, 3, 7, 7, 12, 12, 48)
    name = ctx.choice("sum", "add", "concat", "mean", "sum-nokeep")
    style, R = rows(ctx, n)
    R = [r for r in R if r.size] or [gen.f32(ctx.rng.normal(size=(n, 2)))]
    sizes = [1] * n if name == "add" else gen.partition(ctx, n)
    if style == "array":
        R = R[:1]
    red, oracle = reduction(ctx, name, sizes, [])
    ctx.desc(red=name, style=style, sizes=sizes, shapes=[list(r.shape) for r in R])
    state, seen = None, [[] for _ in R]
    states = []
    for i in range(len(sizes)):
        new = [cut(r, sizes)[i] for r in R]
        for s, x in zip(seen, new, strict=True):
            s.append(x)
        batch = jax.tree.map(dev, wrap(style, new))
        before = common.snapshot([batch, state])
        prev = state
        res, state = ctx.call("reduce", red, batch, *([state] if i or ctx.flip() else []))
        ctx.true("arguments-untouched", common.snapshot([batch, prev]) == before)
        states.append((batch, state))
        want = jax.tree.leaves(wrap(style, [oracle(s) for s in seen]))
        for g, w in zip(jax.tree.leaves(res), want, strict=True):
            ctx.close("prefix", g, w, tol=tol(ctx),
                      floor=max(1.0, max(np.abs(r).max() for r in R)))
    if len(states) > 1:  # a state can be continued from again
        k = ctx.int(0, len(states) - 2)
        res, _ = ctx.call("reduce", red, states[k + 1][0], states[k][1])
        want = jax.tree.leaves(wrap(style, [oracle(s[:k + 2]) for s in seen]))
        for g, w in zip(jax.tree.leaves(res), want, strict=True):
            ctx.close("prefix", g, w, tol=tol(ctx),
                      floor=max(1.0, max(np.abs(r).max() for r in R)))


class Op:
    """sum over examples of A_i, as a tree operator fed batch by batch."""

    def __init__(self, ctx, flat=False):
        self.ps = gen.make_space(ctx, max_p=8, styles=["dict"] if flat else None)
        P = self.ps.size
        self.n = ctx.choice(1, 2, 5, 8)
        self.V = gen.f32(ctx.rng.normal(size=(self.n, P)))
        self.B = gen.f32(ctx.rng.normal(size=(self.n, P)))
        self.sizes = gen.partition(ctx, self.n)
        self.A = self.B.T @ self.V  # not symmetric
        items, k = [], 0
        form = ctx.choice("tuple", "dict")
        for b in self.sizes:
            x, y = dev(self.V[k:k + b]), dev(self.B[k:k + b])
            items.append((x, y) if form == "tuple" else {"input": x, "target": y})
            k += b
        self.items, self.form = items, form
        self.flat = flat
        fl_, un = common_flat(self.ps)

        def mv(vec, data):
            v = vec if flat else fl_(vec)
            out = data["target"].T @ (data["input"] @ v)
            return out if flat else un(out)
        self.mv = mv
        self.tlog = []
        ctx.desc(P=P, n=self.n, sizes=self.sizes, form=form)

    def transform(self, b):
        self.tlog.append(1)
        return b if isinstance(b, dict) else {"input": b[0], "target": b[1]}

    def make(self, ctx, **kw):
        self.rec = common.Recorder(self.items)
        k = {"reduce": ld.reduce_add, **kw}
        if self.form == "dict" or ctx.flip():
            k["transform"] = self.transform
        if ctx.flip(0.2):
            k["verbose_logging"] = False
        return ctx.call("DataLoaderMV", ld.DataLoaderMV, self.mv, self.rec, **k)

    def once(self, ctx, passes=1):
        ctx.true("log:loader", self.rec.log == list(range(len(self.sizes))) * passes
                 and self.rec.starts == passes, log=self.rec.log, starts=self.rec.starts)
        if self.tlog:
            ctx.true("log:transform", len(self.tlog) == passes * len(self.sizes),
                     got=len(self.tlog))
        self.rec.log.clear()
        self.rec.starts = 0
        self.tlog.clear()


def common_flat(ps):
    """Independent flatten / unflatten in jax."""
    shapes = [x.shape for x in jax.tree.leaves(ps.tree_np)]

    def flat(t):
        return jnp.concatenate([jnp.ravel(x) for x in jax.tree.leaves(t)])

    def un(v):
        out, k = [], 0
        for s in shapes:
            z = int(np.prod(s))
            out.append(v[k:k + z].reshape(s))
            k += z
        return jax.tree.unflatten(ps.struct, out)
    return flat, un


def dense_np(ps, tree):
    """Column-stacked dense matrix from the tree form of to_dense."""
    return np.concatenate([np.asarray(x, float).reshape(-1, *np.shape(x)[-1:])
                           for x in jax.tree.leaves(tree)])


def family_operator(ctx):
    o = Op(ctx, flat=ctx.flip(0.3))
    ps, P = o.ps, o.ps.size
    mv = o.make(ctx)
    k = tol(ctx) * 10
    scale = np.abs(o.A).max() + 1
    un = ps.to_tree

    def asvec(v):
        return dev(v) if o.flat else un(v)

    def flatten(t):
        return to_np(t) if o.flat else ps.check_like(ctx, "operator", t)
    v = gen.rand_flat(ctx, P)
    first = flatten(ctx.call("DataLoaderMV", mv, asvec(v)))
    ctx.close("operator", first, o.A @ v, tol=k, floor=scale)
    o.once(ctx)
    what = ctx.choice("dense", "diagonal", "wrapped", "nested", "lower")
    ctx.desc(what=what)
    layout = P if o.flat else ps.tree
    f, u = common_flat(ps)
    if what == "dense":
        if o.flat:
            kw = {"to_dense_batch_size": ctx.int(1, P)} if ctx.flip(0.3) else {}
            D = ctx.call("to_dense", um.to_dense, mv, layout, **kw)
            ctx.close("operator:dense", D, o.A, tol=k, floor=scale)
            o.once(ctx)
        else:
            w = ctx.call("wrap_function", fl.wrap_function, mv, u, f)
            D = ctx.call("to_dense", um.to_dense, w, P)
            ctx.close("operator:dense", D, o.A, tol=k, floor=scale)
            o.once(ctx)
    elif what == "diagonal":
        kw = {"diagonal_batch_size": ctx.int(1, P)} if ctx.flip(0.3) else {}
        D = ctx.call("diagonal", um.diagonal, mv, layout, **kw)
        ctx.close("operator:diagonal", D, np.diag(o.A), tol=k, floor=scale)
        o.once(ctx)
    elif what == "lower":
        D = ctx.call("lower_func", mv.lower_func,
                     lambda m, gain: gain * m(asvec(v))[0] if o.flat else gain * f(m(asvec(v)))[0],
                     gain=3.0)
        ctx.close("operator", D, 3 * (o.A @ v)[0], tol=k, floor=scale)
        o.once(ctx)
    # wrapping composes, keeps the original intact and stays lazy
    depth = ctx.int(1, 3)
    w, A = mv, o.A
    mats = []
    if not o.flat:
        w = ctx.call("wrap_function", fl.wrap_function, mv, input_fn=u, output_fn=f)
    for _ in range(depth):
        L, Rm = (gen.f32(ctx.rng.normal(size=(P, P))) for _ in range(2))
        which = ctx.choice("both", "in", "out")
        mats.append(which)
        kw = {}
        if which != "out":
            kw["input_fn"] = lambda x, R=dev(Rm): R @ x
            A = A @ Rm
        if which != "in":
            kw["output_fn"] = lambda x, L=dev(L): L @ x
            A = L @ A
        w = ctx.call("wrap_function", fl.wrap_function, w, **kw)
    ctx.desc(depth=depth, mats=mats)
    ctx.true("log:loader", o.rec.log == [], log=o.rec.log)
    z = gen.rand_flat(ctx, P)
    sc = np.abs(A).max() + 1
    ctx.close("operator:wrapped", ctx.call("wrapped", w, dev(z)), A @ z, tol=30 * k, floor=sc)
    o.once(ctx)
    if what in {"wrapped", "nested"}:
        D = ctx.call("to_dense", um.to_dense, w, P)
        ctx.close("operator:dense", D, A, tol=30 * k, floor=sc)
        o.once(ctx)
        d = ctx.call("diagonal", um.diagonal, w, P)
        ctx.close("operator:diagonal", d, np.diag(A), tol=30 * k, floor=sc)
        o.once(ctx)
    again = flatten(ctx.call("DataLoaderMV", mv, asvec(v)))
    ctx.close("reuse", again, first, tol=1e-12 if ctx.x64 else 1e-6, floor=scale)
    o.once(ctx)


class Boom(Exception):
    pass


def family_faults(ctx):
    """Empty loaders and failures part way."""
    what = ctx.choice("empty", "loader", "transform", "function", "reduce")
    n = ctx.int(1, 6)
    at = ctx.int(0, n - 1)
    log = []
    items = [(dev(gen.f32(ctx.rng.normal(size=(ctx.int(1, 3), 2)))), i) for i in range(n)]
    name = ctx.choice("sum", "concat", "mean", "sum-nokeep")
    red0, oracle = reduction(ctx, name, None, [])
    armed = [True]

    def boom(kind, i):
        log.append((kind, i))
        if armed[0] and kind == what and i == at:
            raise Boom(kind)

    class Loader:
        def __init__(self, xs):
            self.xs = xs

        def __iter__(self):
            for i, x in enumerate(self.xs):
                boom("loader", i)
                yield x

    def transform(b):
        boom("transform", b[1])
        return {"input": b[0], "i": b[1]}

    def function(data, **kw):
        boom("function", data["i"])
        return data["input"] * kw.get("vec", 1.0)
    count = [0]

    def red(new, state=None):
        boom("reduce", count[0])
        count[0] += 1
        return red0(new, state)
    data = Loader([] if what == "empty" else items)
    how = ctx.choice("process", "execute", "wrapped", "mv")
    ctx.desc(what=what, n=n, at=at, red=name, how=how)

    def run(data):
        count[0] = 0
        if how == "process":
            return ld.process_batches(function, data, transform, red)
        if how == "execute":
            return ld.execute_with_data_loader(function, data, transform, red)
        if how == "wrapped":
            return ld.wrap_function_with_data_loader(function, data, transform, red)()
        return ld.DataLoaderMV(lambda vec, data: function(data, vec=vec), data, transform,
                               red)(1.0)
    if what == "empty":
        ctx.raises("empty", lambda: run(data), ValueError)
        ctx.raises("empty", lambda: run(iter(())), ValueError)
        ctx.true("empty", log == [], log=log)
        return
    e = ctx.raises("fault", lambda: run(data), Boom)
    order = ["loader", "transform", "function", "reduce"]
    want = [(o, i) for i in range(at + 1) for o in order
            if i < at or order.index(o) <= order.index(what)]
    ctx.true("fault", isinstance(e, Boom) and log == want, log=log, want=want)
    # afterwards everything still works
    armed[0] = False
    log.clear()
    got = ctx.call("after-fault", run, data)
    ctx.close("reuse", got, oracle([np.asarray(x[0], float) for x in items]), tol=tol(ctx),
              floor=1.0)
    ctx.true("log:function", [i for k, i in log if k == "function"] == list(range(n)), log=log)
