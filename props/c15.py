"""C15: evaluation over datasets, loaders and iterators."""

import jax
import jax.numpy as jnp
import numpy as np

from laplax.api import evaluation
from laplax.enums import DefaultMetrics, Predictive
from laplax.eval import metrics as mt
from laplax.eval import utils as ev
from props import c10, c14
from vlib import common, gen, post
from vlib.core import to_np
from vlib.gen import dev, np_softmax

RULE = ("evaluations with distinct (family, precision, data, batch partition and packaging, "
        "metric program, reduction, predictive) compared example by example with the "
        "predictive and metric of that example alone")
FAMILIES = {
    "programs": (300, 8000),
    "dataset": (90, 2500),
    "generator": (70, 2000),
    "regression": (24, 700),
    "classification": (24, 700),
    "custom": (20, 600),
}
REQUIRED = ["per-example", "order", "entries", "served-once", "transform-once", "reduce",
            "program", "program:rejected", "evaluate-on-dataset", "predictive", "default-suite",
            "same-for-packaging", "one-shot", "arguments-untouched"]


# -- metric programs against a reference interpreter ---------------------------
class Missing(Exception):
    pass


def model_apply(fns, names, field, mapping, results, aux, local):
    if mapping:
        kw = {}
        for k, v in mapping.items():
            if v in results:
                kw[k] = results[v]
            elif v in aux:
                kw[k] = aux[v]
            else:
                raise Missing
    else:
        kw = aux
    for f, n in zip(fns, names, strict=True):
        r = f(**kw, **local)
        (results if field == "results" else aux)[n] = r


def family_programs(ctx):
    """apply_fns / transfer_entry / finalize_fns on plain values, with a call log."""
    aux0 = {k: float(ctx.rng.integers(-9, 9)) for k in ("a", "b", "target", "pred_mean")}
    res0 = {"r0": 7.0} if ctx.flip(0.3) else {}
    local = {"opt": 2.0} if ctx.flip(0.3) else {}
    logs = {"lib": [], "ref": []}

    def maker(i, who):
        def fn(**kw):
            logs[who].append((i, sorted(kw.items())))
            return float(sum((j + 2) * v for j, (_, v) in enumerate(sorted(kw.items()))) + i)
        fn.__name__ = f"fn{i}"
        return fn
    prog, lib, known = [], [], ["a", "b", "target", "pred_mean", *res0]
    bad = None
    rk, ak = set(res0), set(aux0)
    for step in range(ctx.int(1, 4)):
        kind = ctx.choice("apply", "apply", "apply", "transfer")
        if kind == "apply":
            k = ctx.int(1, 3)
            ids = [10 * step + i for i in range(k)]
            named = ctx.flip(0.7)
            names = [ctx.choice(f"n{step}{i}", f"m{i}") + ("x" * i) for i in range(k)] \
                if named else None
            field = ctx.choice("results", "results", "aux")
            mapping = {f"k{j}": ctx.choice(*sorted(rk | ak)) for j in range(ctx.int(0, 3))}
            mapping.pop("opt", None)
            if ctx.flip(0.05) and mapping:
                mapping[sorted(mapping)[0]], bad = "absent", ValueError
            elif named and ctx.flip(0.04):
                names, bad = names + ["more"], ValueError
            if not named and not mapping and not (ak & {"opt"}):
                pass
            out = names if named else [f"fn{i}" for i in ids]
            prog.append(("apply", ids, out, field, mapping))
            lib.append(ctx.call("apply_fns", ev.apply_fns, *[maker(i, "lib") for i in ids],
                                **({"names": names} if named else {}),
                                **({"field": field} if field != "results" or ctx.flip() else {}),
                                **mapping))
            (rk if field == "results" else ak).update(out)
        else:
            src = ctx.choice("aux", "results")
            dst = ctx.choice("aux", "results")
            have = sorted(ak if src == "aux" else rk)
            if not have:
                continue
            keys = [ctx.choice(*have) for _ in range(ctx.int(1, 2))]
            as_list = ctx.flip()
            mapping = {(k if as_list else f"t{step}{k}"): k for k in keys}
            over = sorted((ak if dst == "aux" else rk) - (set(keys) if src == dst else set()))
            if not as_list and over and ctx.flip(0.4):  # replaces what is there
                mapping[ctx.choice(*over)] = ctx.choice(*keys)
            prog.append(("transfer", mapping, dst, src))
            kw = {}
            if dst != "results" or ctx.flip():
                kw["field"] = dst
            if src != "aux" or ctx.flip():
                kw["access_from"] = src
            lib.append(ctx.call("transfer_entry", ev.transfer_entry,
                                list(mapping) if as_list else mapping, **kw))
            (rk if dst == "results" else ak).update(mapping)
        if bad:
            break
    ctx.desc(prog=str(prog), local=bool(local), bad=bad is not None)
    if not lib:
        lib.append(ev.transfer_entry(["a"]))
        prog.append(("transfer", {"a": "a"}, "results", "aux"))
    if not bad and ctx.flip(0.25):  # one step once more, at the end
        j = ctx.int(0, len(lib) - 1)
        lib.append(lib[j])
        prog.append(prog[j])
        ctx.desc(again=j)
    if bad:
        ctx.raises("program:rejected", lambda: ev.finalize_fns(
            list(lib), dict(res0), dict(aux0), **local), bad)
        return
    results, aux = dict(res0), dict(aux0)
    for p in prog:
        if p[0] == "apply":
            model_apply([maker(i, "ref") for i in p[1]], p[2], p[3], p[4], results, aux, local)
        else:
            d = {"results": results, "aux": aux}
            for k, v in p[1].items():
                d[p[2]][k] = d[p[3]][v]
    keep = list(lib)
    got = ctx.call("finalize_fns", ev.finalize_fns, lib, dict(res0), dict(aux0), **local)
    ctx.true("program", dict(got) == results, got=got, want=results)
    ctx.true("program", logs["lib"] == logs["ref"], got=logs["lib"], want=logs["ref"])
    ctx.true("arguments-untouched", lib == keep)
    if ctx.flip(0.1):
        ctx.raises("program:rejected", lambda: ev.apply_fns(mt.estimate_rmse, 3), TypeError)
        ctx.raises("program:rejected", lambda: ev.transfer_entry(["a"], field="other"),
                   ValueError)
        ctx.raises("program:rejected", lambda: ev.finalize_fns(
            [ev.apply_fns(maker(1, "lib"), field="other")], {}, {"a": 1.0}), ValueError)


# -- a synthetic predictive ---------------------------------------------------
class Synth:
    """pred_fn over inputs, with per-example reference values."""

    def __init__(self, ctx, n):
        self.in_shape = ctx.choice((), (1,), (3,), (2, 2))
        self.out = ctx.choice((1,), (2,), (3,))
        self.n = n
        d = int(np.prod(self.in_shape)) if self.in_shape else 1
        self.W = gen.f32(ctx.rng.normal(size=(d, *self.out)))
        self.X = gen.f32(ctx.rng.normal(size=(n, *self.in_shape)))
        self.Y = gen.f32(ctx.rng.normal(size=(n, *self.out)) + 10 * np.arange(n).reshape(-1, 1))
        self.scalar_out = ctx.flip()
        W = dev(self.W)

        def pred(input):  # noqa: A002
            z = jnp.reshape(input, (-1,)) @ W
            r = {"pred_mean": z, "pred_std": 0.5 + z ** 2}
            if self.scalar_out:
                r["tag"] = jnp.sum(z)
            return r
        self.pred = pred
        ctx.desc(n=n, in_shape=list(self.in_shape), out=list(self.out))

    def ref(self, x):
        z = np.reshape(x, (-1,)) @ self.W
        r = {"pred_mean": z, "pred_std": 0.5 + z ** 2}
        if self.scalar_out:
            r["tag"] = np.sum(z)
        return r


def metric_set(ctx, kw_ok=True):
    """[(what is handed over, {name: reference of (pred incl. target)})] ."""
    lib = {
        "gap": (lambda *, pred_mean, target, **_: jnp.sum((pred_mean - target) ** 2),
                lambda p: np.sum((p["pred_mean"] - p["target"]) ** 2)),
        "vec": (lambda *, pred_mean, pred_std, **_: pred_mean / pred_std,
                lambda p: p["pred_mean"] / p["pred_std"]),
        "rmse": (mt.estimate_rmse,
                 lambda p: np.sqrt(np.mean((p["pred_mean"] - p["target"]) ** 2))),
        "nll": (mt.nll_gaussian,
                lambda p: c14.o_nll(p["pred_mean"], p["pred_std"], p["target"])[0]),
        "chi^2": (mt.chi_squared,
                  lambda p: np.mean(((p["pred_mean"] - p["target"]) / p["pred_std"]) ** 2)),
        "count": (lambda **kw: jnp.array(len([k for k in kw if k in (  # noqa: C416
            "pred_mean", "pred_std", "target")])), lambda p: np.array(3)),
    }
    names = [n for n in lib if ctx.flip(0.5)] or ["gap"]
    metrics_dict = {n: lib[n][0] for n in names}
    want = {n: lib[n][1] for n in names}
    how = ctx.choice("dict", "list", "both", "chain", "composed")
    ctx.desc(metrics=names, how=how)
    if how == "dict":
        return {"metrics_dict": metrics_dict}, want
    fns = ev.apply_fns(*metrics_dict.values(), names=list(names))
    if how == "list":
        return {"metrics": [fns]}, want
    if how == "both":
        half = dict(list(metrics_dict.items())[:1])
        rest = {k: v for k, v in metrics_dict.items() if k not in half}
        out = {"metrics": [ev.apply_fns(*half.values(), names=list(half))]}
        if rest:
            out["metrics_dict"] = rest
        return out, want
    if how == "chain":
        moved = {"y": "target", "m": "pred_mean"}
        want = {**want, "y": lambda p: p["target"], "m": lambda p: p["pred_mean"]}
        fs = [fns, ev.transfer_entry(moved)]
        if ctx.flip():
            fs.reverse()
        return {"metrics": fs}, want
    # a later metric reads an earlier result, and an auxiliary intermediate
    fs = [ev.apply_fns(lambda a, b, **_: jnp.abs(a - b), names=["absgap"], field="aux",
                       a="pred_mean", b="target"),
          ev.apply_fns(lambda g, **_: jnp.max(g), names=["maxgap"], g="absgap"),
          ev.apply_fns(lambda m, s, **_: m + jnp.sum(s), names=["sum"], m="maxgap",
                       s="pred_std"), fns] if "count" not in names and "vec" not in names \
        else [fns]
    if len(fs) == 1:
        return {"metrics": fs}, want
    def gapv(p):
        return np.max(np.abs(p["pred_mean"] - p["target"]))
    return {"metrics": fs}, {**want, "maxgap": gapv,
                             "sum": lambda p: gapv(p) + np.sum(p["pred_std"])}


def expected(s, want, X, Y):
    rows = [{**s.ref(x), "target": y} for x, y in zip(X, Y, strict=True)]
    return {k: np.stack([np.asarray(f(r), float) for r in rows]) for k, f in want.items()}


def compare(ctx, name, got, want, tol):
    ctx.true("entries", set(got) == set(want), got=sorted(got), want=sorted(want))
    for k in want:
        ctx.close(name, ctx.field("entries", got, k), want[k], tol=tol, floor=1.0, metric=k)


def tol(ctx):
    return 1e-9 if ctx.x64 else 2e-4


def family_dataset(ctx):
    s = Synth(ctx, ctx.choice(1, 2, 5, 5, 7, 7, 12, 12, 70))
    data = {"input": dev(s.X), "target": dev(s.Y)}
    bs = ctx.choice(None, 1, 2, 3, 5, s.n, s.n + 3)
    which = ctx.choice("data_batch_size", "evaluate_metrics_on_dataset_batch_size")
    kw = {} if bs is None else {which: bs}
    if bs is not None and which != "data_batch_size" and ctx.flip(0.3):
        kw["data_batch_size"] = ctx.int(1, 4)
    ctx.desc(bs=bs, which=which)
    if ctx.flip(0.35):
        k2 = {k.replace("_metrics", ""): v for k, v in kw.items()}
        got = ctx.call("evaluate_on_dataset", ev.evaluate_on_dataset, s.pred, data, **k2)
        rows = [s.ref(x) for x in s.X]
        want = {k: np.stack([np.asarray(r[k]) for r in rows]) for k in rows[0]}
        want["target"] = s.Y
        compare(ctx, "evaluate-on-dataset", got, want, tol(ctx))
        ctx.close("order", got["target"], s.Y, tol=1e-7)
        return
    mk, want = metric_set(ctx)
    want = expected(s, want, s.X, s.Y)
    log = []

    def red(v):
        log.append(tuple(np.shape(v)))
        return jnp.sum(v * jnp.arange(1, s.n + 1).reshape((-1,) + (1,) * (v.ndim - 1)), 0)
    r = ctx.choice("none", "mean", "weighted")
    if r == "mean":
        kw["reduce"] = lambda v: jnp.mean(v, axis=0)
    elif r == "weighted":
        kw["reduce"] = red
    ctx.desc(reduce=r)
    mark = {k: list(v) if isinstance(v, list) else dict(v) for k, v in mk.items()}
    snap = common.snapshot(data)
    got = ctx.call("evaluate_metrics_on_dataset", ev.evaluate_metrics_on_dataset, s.pred, data,
                   **mk, **kw)
    ctx.true("arguments-untouched", mark == mk and common.snapshot(data) == snap)
    full = want
    if r == "mean":
        want = {k: v.mean(0) for k, v in want.items()}
    elif r == "weighted":
        want = {k: np.tensordot(np.arange(1, s.n + 1), v, 1) for k, v in want.items()}
        ctx.true("reduce", sorted(log) == sorted(v.shape for v in full.values()), log=log)
    compare(ctx, "per-example" if r == "none" else "reduce", got, want, tol(ctx) * s.n)
    if r == "none" and "y" in got:
        ctx.close("order", got["y"], s.Y, tol=1e-7)


def batches_of(X, Y, sizes, form):
    out, k = [], 0
    for b in sizes:
        x, y = dev(X[k:k + b]), dev(Y[k:k + b])
        out.append({"dict": {"input": x, "target": y}, "tuple": (x, y), "list": [x, y],
                    "extra": {"input": x, "target": y, "idx": jnp.arange(k, k + b)}}[form])
        k += b
    return out


class OneShot:
    """A one-shot iterator that records what it served."""

    def __init__(self, batches):
        self.rec = common.Recorder(batches)
        self.it = iter(self.rec)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)


def loader(ctx, batches, kinds=("list", "gen", "oneshot", "custom", "tuple")):
    kind = ctx.choice(*kinds)
    ctx.desc(loader=kind)
    rec = common.Recorder(batches)
    if kind == "gen":
        return (b for b in rec), rec
    if kind == "oneshot":
        o = OneShot(batches)
        return o, o.rec
    if kind == "custom":
        return rec, rec
    return (tuple if kind == "tuple" else list)(batches), None


def served(ctx, rec, n, kind="served-once"):
    if rec is not None:
        ctx.true(kind, rec.log == list(range(n)), log=rec.log, batches=n)
    else:
        ctx._seen(kind)


def family_generator(ctx):
    n = ctx.choice(1, 2, 5, 5, 7, 7, 12, 12, 40)
    s = Synth(ctx, n)
    vm = ctx.flip(0.8)
    mk, want = metric_set(ctx)
    want = expected(s, want, s.X, s.Y)
    tlog = []
    if vm:
        sizes = gen.partition(ctx, n)
        form = ctx.choice("dict", "tuple", "extra")
        bs = batches_of(s.X, s.Y, sizes, form)
    else:
        sizes, form = [1] * n, ctx.choice("dict", "tuple")
        bs = [b for b in batches_of(s.X, s.Y, sizes, form)]
        bs = [jax.tree.map(lambda a: a[0], b) for b in bs]
    ident = {id(b): i for i, b in enumerate(bs)}
    kw = {}
    if form == "tuple" or ctx.flip():
        def transform(b):
            tlog.append(ident.get(id(b), "?"))
            return b if isinstance(b, dict) else {"input": b[0], "target": b[1]}
        kw["transform"] = transform
    data, rec = loader(ctx, bs)
    rlog = []
    r = ctx.choice("none", "concat", "log")
    if r != "none":
        def red(vs):
            rlog.append([tuple(np.shape(v)) for v in vs])
            if r == "concat":
                return (jnp.concatenate if vm else jnp.stack)(vs)
            return [2 * v for v in vs]
        kw["reduce"] = red
    if not vm:
        kw["vmap_over_data"] = False
    elif ctx.flip(0.3):
        kw["vmap_over_data"] = True
    ctx.desc(sizes=sizes, form=form, reduce=r, vmap=vm)
    mark = {k: list(v) if isinstance(v, list) else dict(v) for k, v in mk.items()}
    got = ctx.call("evaluate_metrics_on_generator", ev.evaluate_metrics_on_generator, s.pred,
                   data, **mk, **kw)
    ctx.true("arguments-untouched", mark == mk)
    served(ctx, rec, len(bs))
    if "transform" in kw:
        ctx.true("transform-once", tlog == list(range(len(bs))), log=tlog, batches=len(bs))
    ctx.true("entries", set(got) == set(want), got=sorted(got), want=sorted(want))
    cuts = np.cumsum(sizes)[:-1]
    for k, w in want.items():
        g = ctx.field("entries", got, k)
        parts = np.split(w, cuts) if vm else list(w)
        if r == "concat":
            ctx.close("reduce", g, w, tol=tol(ctx), floor=1.0, metric=k)
            continue
        ctx.true("per-example", isinstance(g, list) and len(g) == len(parts),
                 got=type(g), want=len(parts))
        for a, b in zip(g, parts, strict=True):
            ctx.close("per-example", a, b * (2 if r == "log" else 1), tol=tol(ctx), floor=1.0,
                      metric=k)
    if r != "none":
        ctx.true("reduce", len(rlog) == len(want) and all(len(v) == len(bs) for v in rlog),
                 log=rlog)
    if r == "none" and "y" in got:
        ctx.close("order", np.concatenate([np.atleast_2d(to_np(g)) for g in got["y"]]), s.Y,
                  tol=1e-7)


# -- the high-level evaluation -------------------------------------------------
class Setting:
    def __init__(self, ctx, cls):
        losses = ["cross_entropy"] if cls else ["mse"]
        n = ctx.choice(1, 2, 4, 7)
        out = {"out": ctx.choice((2,), (3,))} if cls else {"out": ctx.choice((1,), (2,), (3,))}
        self.pr = gen.make_problem(ctx, losses, small=True, n=n, onehot=False,
                                   smooth_only=True, **out)
        self.m = self.pr.model
        self.p = post.Post(ctx, self.m.ps, cond=1e4 if ctx.x64 else 1e2)
        self.posterior = self.p.fn
        if self.p.extra:
            def fn(args, loss_scaling_factor=1.0):
                return self.p.fn(args, self.p.c * loss_scaling_factor)
            self.posterior = fn
        self.F = np.stack([self.m.out(x) for x in self.pr.X])
        self.C = [J @ self.p.cov @ J.T for J in (self.m.jac(x) for x in self.pr.X)]


def package(ctx, s, form=None):
    """(data to hand over, record, batches, is_loader)"""
    form = form or ctx.choice("tuple", "list", "dict", "loader", "loader", "loader", "loader")
    X, Y = s.pr.X, s.pr.Y
    if form != "loader":
        ctx.desc(form=form)
        return batches_of(X, Y, [len(X)], form)[0], None, 1, False
    sizes = gen.partition(ctx, len(X))
    bf = ctx.choice("tuple", "list", "dict", "extra")
    ctx.desc(form=form, sizes=sizes, batch=bf)
    bs = batches_of(X, Y, sizes, bf)
    data, rec = loader(ctx, bs, ("gen", "oneshot", "custom"))
    return data, rec, len(bs), True


def evaluate(ctx, s, data, **kw):
    args = dict(s.p.args)
    snap = common.snapshot([args, s.m.params, s.p.est])
    out = ctx.call("evaluation", evaluation, s.posterior, s.m.model_fn, s.m.params, args, data,
                   **kw)
    ctx.true("arguments-untouched", common.snapshot([args, s.m.params, s.p.est]) == snap)
    ctx.true("entries", isinstance(out, tuple) and len(out) == 2, got=type(out))
    return out


def check_predictive(ctx, s, pred, rows, cls, kind):
    """The returned predictive, one example at a time, and against the dense oracle."""
    big = max(np.abs(c).max() for c in s.C) + 1e-9
    for i, r in enumerate(rows):
        ctx.close("predictive", ctx.field("predictive", r, "pred_mean"), s.F[i],
                  tol=1e-8 if ctx.x64 else 1e-4, floor=1.0)
        ctx.close("predictive", to_np(ctx.field("predictive", r, "pred_std")) ** 2,
                  np.diag(s.C[i]).reshape(s.F[i].shape), tol=1e-6 if ctx.x64 else 2e-2,
                  floor=big)
        if cls and kind in {"mean_field_0", "mean_field_1", "mean_field_2"} \
                and c10.sane(ctx, s.F[i], s.C[i], kind):
            ctx.close("predictive", ctx.field("predictive", r, "pred_act"),
                      c10.closed_form(kind, s.F[i], s.C[i]), tol=1e-6 if ctx.x64 else 2e-2)


def rows_of(ctx, s, pred):
    out = []
    for x in s.pr.X:
        r = ctx.call("predictive", pred, dev(x))
        out.append({k: np.asarray(v, float) for k, v in dict(r).items()
                    if hasattr(v, "shape")})
    return out


def options(ctx):
    kw = {}
    if ctx.flip(0.4):
        kw["predictive_jit"] = ctx.flip()
    if ctx.flip(0.4):
        kw["pushforward_type"] = ctx.choice("linear", "LINEAR")
    return kw


def family_regression(ctx):
    s = Setting(ctx, False)
    data, rec, nb, is_loader = package(ctx, s)
    kw = options(ctx)
    non = ctx.flip(0.2)
    if non:
        kw.update(pushforward_type="nonlinear", sample_key=ctx.key(), num_samples=ctx.int(2, 6))
    if ctx.flip(0.7):
        kw["metrics"] = ctx.choice("regression", "REGRESSION", DefaultMetrics.REGRESSION)
    r = ctx.choice("none", "none", "mean")
    if r == "mean":
        kw["reduce"] = jnp.mean
    ctx.desc(reduce=r, non=non)
    res, pred = evaluate(ctx, s, data, **kw)
    served(ctx, rec, nb, "one-shot")
    rows = rows_of(ctx, s, pred)
    if not non:
        check_predictive(ctx, s, pred, rows, False, None)
    want = {"rmse": [], "chi^2": [], "nll": [], "crps": []}
    for row, y in zip(rows, s.pr.Y, strict=True):
        m, sd = row["pred_mean"], row["pred_std"]
        y = np.asarray(y, float)
        want["rmse"].append(c14.o_rmse(m, y))
        want["chi^2"].append(c14.o_chi2(m, sd, y))
        want["nll"].append(c14.o_nll(m, sd, y)[0])
        want["crps"].append(c14.o_crps(m, sd, y)[0])
    ctx.true("entries", set(res) == set(want), got=sorted(res))
    for k, w in want.items():
        w = np.asarray(w)
        if not np.isfinite(w).all():  # zero spread has no density
            ctx._seen("undefined-metric")
            continue
        t = 1e-6 if ctx.x64 else 5e-3
        if r == "mean":
            ctx.close("reduce", ctx.field("entries", res, k), w.mean(), tol=t,
                      floor=max(1e-2, np.abs(w).max()), metric=k)
        else:
            ctx.rel("default-suite", ctx.field("entries", res, k), w, tol=t, floor=1e-2,
                    metric=k)


def family_classification(ctx):
    s = Setting(ctx, True)
    data, rec, nb, is_loader = package(ctx, s)
    kw = options(ctx)
    kind = ctx.choice("mean_field_0", "mean_field_1", "mean_field_2", "laplace_bridge",
                      "mc_bridge")
    kw["predictive_type"] = ctx.choice(kind, kind.upper(), Predictive(kind))
    if kind == "mc_bridge":
        kw.update(sample_key=ctx.key(), num_samples=ctx.int(2, 6))
        if ctx.flip():
            kw["pushforward_type"] = "nonlinear"
    r = ctx.choice("none", "none", "mean")
    if r == "mean":
        kw["reduce"] = jnp.mean
    ctx.desc(kind=kind, reduce=r)
    res, pred = evaluate(
        ctx, s, data, metrics=ctx.choice("classification", DefaultMetrics.CLASSIFICATION), **kw)
    served(ctx, rec, nb, "one-shot")
    pred_map = np.stack([np_softmax(f) for f in s.F])
    rows = rows_of(ctx, s, pred)
    if kw.get("pushforward_type") != "nonlinear":
        check_predictive(ctx, s, pred, rows, True, kind)
    Y = s.pr.Y
    want = {"confidences_map": pred_map.max(-1),
            "confidences_pred": np.stack([np.max(w["pred_act"]) for w in rows]),
            "correctness_map": (s.F.argmax(-1) == Y).astype(float),
            "correctness_pred": np.stack([np.argmax(w["pred_mean"]) == y
                                          for w, y in zip(rows, Y, strict=True)]).astype(float),
            "nll_gaussian": np.stack([
                c14.o_nll(w["pred_mean"], w["pred_std"], np.eye(s.m.C)[y])[0]
                for w, y in zip(rows, Y, strict=True)])}
    ctx.true("entries", set(res) == set(want), got=sorted(res), want=sorted(want))
    top = np.sort(s.F, -1)
    if (top[:, -1] - top[:, -2]).min() < 1e-3:
        ctx._seen("tie-skipped")
        want.pop("correctness_map"), want.pop("correctness_pred")
    for k, w in want.items():
        t = 1e-6 if ctx.x64 else 5e-3
        if not np.isfinite(w).all():
            ctx._seen("undefined-metric")
        elif r == "mean":
            ctx.close("reduce", ctx.field("entries", res, k), w.mean(), tol=t,
                      floor=max(1e-1, np.abs(w).max()), metric=k)
        else:
            ctx.rel("default-suite", ctx.field("entries", res, k), w, tol=t, floor=1e-1,
                    metric=k)


def family_custom(ctx):
    """Custom metrics; every packaging of the same data gives the same values."""
    s = Setting(ctx, False)
    what = ctx.choice("list", "callable", "two", "tuple", "plain")
    g1 = ev.apply_fns(lambda pred_mean, target: pred_mean - target, names=["gap"],
                      pred_mean="pred_mean", target="target")
    g2 = ev.apply_fns(lambda **kw: jnp.sum(kw["pred_std"]) + jnp.sum(kw["map"]), names=["s"])
    tr = ev.transfer_entry({"y": "target", "f": "map"})
    want = {"gap": lambda i, r: r["pred_mean"] - s.pr.Y[i]}
    metrics = [g1]
    if what == "callable":
        metrics = g1
    elif what in {"two", "tuple"}:
        metrics = [tr, g1, g2] if ctx.flip() else [g2, g1, tr]
        want.update(y=lambda i, r: np.asarray(s.pr.Y[i], float), f=lambda i, r: s.F[i],
                    s=lambda i, r: np.sum(r["pred_std"]) + np.sum(s.F[i]))
        if what == "tuple":
            metrics = tuple(metrics)
    elif what == "plain":  # a callable with the raw results/aux protocol
        def raw(results, aux, **kwargs):
            results["gap"] = aux["pred_mean"] - aux["target"]
            return results, aux
        metrics = [raw]
    before = list(metrics) if isinstance(metrics, list) else metrics
    kw = options(ctx)
    outs = []
    for form in ("tuple", "list", "dict", "loader", "loader"):
        if form in {"list", "dict"} and ctx.flip(0.5):
            continue
        data, rec, nb, _ = package(ctx, s, form)
        res, pred = evaluate(ctx, s, data, metrics=metrics, **kw)
        served(ctx, rec, nb, "one-shot")
        outs.append(res)
    ctx.true("arguments-untouched", metrics == before)
    rows = rows_of(ctx, s, pred)
    ctx.desc(what=what)
    for res in outs:
        ctx.true("entries", set(res) == set(want), got=sorted(res), want=sorted(want))
        for k, f in want.items():
            w = np.stack([np.asarray(f(i, r), float) for i, r in enumerate(rows)])
            ctx.close("same-for-packaging", ctx.field("entries", res, k), w,
                      tol=1e-8 if ctx.x64 else 1e-3, floor=1.0, metric=k)
            if k == "y":
                ctx.close("order", res[k], s.pr.Y, tol=1e-7)
