"""C19: registered methods are used exactly as registered."""

import contextlib

import jax
import jax.numpy as jnp
import numpy as np

import laplax.api as api
import laplax.curv.cov as cov
import laplax.eval.likelihood as lk
import laplax.eval.pushforward as pf
import laplax.register as reg
from laplax.curv.utils import LowRankTerms
from laplax.enums import CurvApprox
from vlib import common, gen, post
from vlib.core import to_np
from vlib.gen import dev

RULE = ("registrations with distinct (family, precision, supplied subset, default type, "
        "history of names) whose call logs and results were compared with direct calls")
FAMILIES = {
    "subset": (64, 2600),
    "history": (14, 700),
    "reject": (24, 900),
    "calibration": (18, 900),
    "pipeline": (16, 600),
}
REQUIRED = ["called", "not-called", "arguments", "estimate", "cov", "scale", "evidence",
            "isolated", "replaced", "rejected", "no-effect", "selected-by-name",
            "calibration-arguments", "calibration-result", "unknown-calibration",
            "predictive"]

TABLES = ["CURVATURE_METHODS", "CURVATURE_PRECISION_METHODS", "CURVATURE_TO_POSTERIOR_STATE",
          "CURVATURE_STATE_TO_SCALE", "CURVATURE_STATE_TO_COV"]
PARTS = ["create", "precision", "state", "scale", "cov", "evidence"]
ARG = {"create": "create_curvature_fn", "precision": "curvature_to_precision_fn",
       "state": "prec_to_posterior_fn", "scale": "posterior_state_to_scale_fn",
       "cov": "posterior_state_to_cov_fn", "evidence": "marginal_log_likelihood_fn"}
KINDS = ["full", "diagonal", "lanczos", "lobpcg"]


def tables():
    return dict(zip(PARTS, [getattr(cov, t) for t in TABLES] + [
        lk.CURVATURE_MARGINAL_LOG_LIKELIHOOD], strict=True))


# What each built-in type uses, before any case registers anything.
BUILTIN = {k: {p: t[k] for p, t in tables().items()} for k in KINDS}
CALIBRATION = dict(api.calibration_options)


@contextlib.contextmanager
def scratch():
    """Registrations of a case end with the case."""
    regs = [*tables().values(), api.calibration_options]
    saved = [dict(r) for r in regs]
    try:
        yield
    finally:
        for r, s in zip(regs, saved, strict=True):
            r.clear()
            r.update(s)


def contents():
    return [[(str(k), id(v)) for k, v in r.items()]
            for r in [*tables().values(), api.calibration_options]]


# -- supplied functions -------------------------------------------------------
def scaled(p, a):
    if isinstance(p, LowRankTerms):
        return LowRankTerms(U=p.U, S=a * p.S, scalar=a * p.scalar)
    return jax.tree.map(lambda x: a * x, p)


class Supplied:
    """Functions in the data format of `kind` that compute something else, and log calls.

    `a` makes every set of functions distinguishable from every other."""

    def __init__(self, kind, parts, a, log=None):
        self.kind, self.parts, self.a = kind, list(parts), a
        self.log = [] if log is None else log
        b = BUILTIN[kind]

        def create(mv, layout=None, **kw):
            self.log.append(("create", {"mv": mv, "layout": layout, "kw": kw}))
            return b["create"](lambda v: jax.tree.map(lambda x: a * x, mv(v)),
                               layout=layout, **kw)

        def precision(curv_estimate, prior_arguments, loss_scaling_factor=1.0):
            self.log.append(("precision", {"curv_estimate": curv_estimate,
                                           "prior_arguments": prior_arguments,
                                           "loss_scaling_factor": loss_scaling_factor}))
            return scaled(b["precision"](curv_estimate, prior_arguments, loss_scaling_factor),
                          1 + a)

        def state(p):
            self.log.append(("state", {"precision": p}))
            return b["state"](scaled(p, 2 * a))

        def scale(s):
            self.log.append(("scale", {"state": s}))
            f = b["scale"](s)
            return lambda v: 0.5 * a * f(v)

        def cov_(s):
            self.log.append(("cov", {"state": s}))
            f = b["cov"](s)
            return lambda v: 3 * a * f(v)

        def evidence(posterior_precision, prior_arguments, full_fn, params, data):
            self.log.append(("evidence", {"posterior_precision": posterior_precision,
                                          "prior_arguments": prior_arguments,
                                          "full_fn": full_fn, "params": params,
                                          "data": data}))
            return 10 * a + b["evidence"](posterior_precision, prior_arguments, full_fn, params,
                                          data)
        mine = dict(zip(PARTS, [create, precision, state, scale, cov_, evidence], strict=True))
        self.mine = {p: mine[p] for p in self.parts}
        self.uses = {p: self.mine.get(p, b[p]) for p in PARTS}

    def register(self, ctx, name, default="kind", label="register_curvature_method"):
        d = self.kind if default == "kind" else default
        kw = {ARG[p]: f for p, f in self.mine.items()}
        for p in PARTS:
            if p not in kw and ctx.flip(0.2) and p not in self.mine:
                kw[ARG[p]] = None
        if d is not None:
            kw["default"] = d
        ctx.call(label, reg.register_curvature_method, name, **kw)

    def take(self):
        out = list(self.log)
        self.log.clear()
        return out


class Problem:
    """A curvature product, a prior, and a model for the evidence."""

    def __init__(self, ctx, kind):
        lobpcg = kind == "lobpcg"
        for _ in range(40):
            self.pr = gen.make_problem(ctx, ["mse", "huber"], small=True,
                                       n=ctx.choice(2, 3))
            if not lobpcg or self.pr.P > 5:
                break
        else:
            kind = "lanczos"
        self.kind, pr = kind, self.pr
        self.ps, self.n = pr.model.ps, pr.P
        self.A = gen.psd(ctx, self.n, self.n)
        self.flat = ctx.flip(0.3)
        A = dev(self.A)
        if self.flat:
            self.mv, self.layout = (lambda v: A @ v), self.n
        else:
            self.mv, self.layout = gen.mv_from_dense(self.A, self.ps), self.ps.tree
        r = 1 if lobpcg and kind == "lobpcg" else min(3, self.n)
        self.kw = {"key": ctx.key(), "rank": r} if kind in {"lanczos", "lobpcg"} else {}
        self.args = {"prior_prec": ctx.logunif(-1, 1)}
        if ctx.flip(0.4):
            self.args["sigma_squared"] = 0.5
        self.c = ctx.choice(1.0, 1.0, 2.0)
        self.v = gen.rand_flat(ctx, self.n)
        ctx.desc(kind=kind, n=self.n, flat=self.flat, c=self.c)

    def vec(self):
        return dev(self.v) if self.flat else self.ps.to_tree(self.v)

    def post_kw(self):
        return {} if self.c == 1.0 else {"loss_scaling_factor": self.c}

    def flatten(self, x):
        if self.flat:
            return to_np(x)
        return np.concatenate([np.zeros(0)] + [to_np(l).ravel() for l in jax.tree.leaves(x)])

    def direct(self, uses):
        """The stages by hand, with the given functions."""
        out = {}
        out["estimate"] = est = uses["create"](self.mv, layout=self.layout, **self.kw)
        p = uses["precision"](curv_estimate=est, prior_arguments=self.args,
                              loss_scaling_factor=self.c)
        s = uses["state"](p)
        out["cov"] = uses["cov"](s)(dev(self.v))
        out["scale"] = uses["scale"](s)(dev(self.v))
        full_fn = self.full_fn()
        out["evidence"] = uses["evidence"](p, self.args, full_fn, self.pr.params, self.pr.data)
        return out

    def full_fn(self):
        from laplax.curv.utils import concatenate_model_and_loss_fn

        return concatenate_model_and_loss_fn(self.pr.model_fn, self.pr.loss.lib,
                                             vmap_over_data=True)

    def library(self, ctx, name, probe=None):
        """The same through the library, under a name."""
        out, logs = {}, {}

        def took(stage):
            if probe is not None:
                logs[stage] = probe()
        if ctx.flip():
            est = ctx.call("estimate_curvature", cov.estimate_curvature, name, self.mv,
                           self.layout, **self.kw)
            took("estimate")
            fn = ctx.call("set_posterior_fn", cov.set_posterior_fn, name, est,
                          layout=self.layout)
        else:
            est = ctx.call("estimate_curvature", cov.estimate_curvature, curv_type=name,
                           mv=self.mv, layout=self.layout, **self.kw)
            fn = ctx.call("create_posterior_fn", cov.create_posterior_fn, name, self.mv,
                          self.layout, **self.kw)
            took("estimate")
        out["estimate"] = est
        p = ctx.call("posterior_fn", fn, self.args, **self.post_kw())
        took("posterior")
        out["cov"] = self.flatten(ctx.call("cov_mv", lambda: p.cov_mv(p.state)(self.vec())))
        took("cov")
        out["scale"] = self.flatten(ctx.call("scale_mv",
                                             lambda: p.scale_mv(p.state)(self.vec())))
        took("scale")
        out["evidence"] = ctx.call(
            "marginal_log_likelihood", lk.marginal_log_likelihood, est, self.args, self.pr.data,
            self.pr.model_fn, self.pr.params, self.pr.loss.lib, name, vmap_over_data=True,
            **self.post_kw())
        took("evidence")
        self.posterior_fn = fn
        return out, logs


def leaves(x):
    return [to_np(l) for l in jax.tree.leaves(x)]


def agree(ctx, got, want, name=None, **info):
    tol = 1e-9 if ctx.x64 else 2e-5
    for k, w in want.items():
        g = got[k]
        gl, wl = leaves(g), leaves(w)
        if ctx.true(name or k, len(gl) == len(wl), got=len(gl), want=len(wl), what=k, **info):
            for a, b in zip(gl, wl, strict=True):
                ctx.close(name or k, a, b, tol=tol, floor=1e-9, what=k, **info)


EXPECT = {"estimate": {"create"}, "posterior": {"precision", "state"}, "cov": {"cov"},
          "scale": {"scale"}, "evidence": {"precision", "evidence"}}


def watch_log(ctx, sup, logs, prob):
    """Which supplied functions each stage called, and with what."""
    for stage, log in logs.items():
        seen = {p for p, _ in log}
        ctx.event(len(log))
        must = EXPECT[stage] & set(sup.parts)
        ctx.true("called", must <= seen, stage=stage, supplied=sup.parts, seen=sorted(seen))
        stray = seen - EXPECT[stage]
        if stage == "posterior":  # the products may be formed early
            stray -= {"cov", "scale"}
        ctx.true("not-called", not stray, stage=stage, seen=sorted(seen))
        for part, a in log:
            if part == "create":
                ok = a["kw"].keys() == prob.kw.keys() and (
                    a["layout"] is prob.layout or common.snapshot(a["layout"])
                    == common.snapshot(prob.layout))
                ok = ok and all(a["kw"][k] is prob.kw[k] for k in prob.kw)
                ctx.true("arguments", ok, part=part, kw=sorted(a["kw"]))
            elif part == "precision":
                c = float(a["loss_scaling_factor"])
                ctx.true("arguments", common.snapshot(a["prior_arguments"])
                         == common.snapshot(prob.args) and c == prob.c, part=part, c=c,
                         args=a["prior_arguments"])
            elif part == "evidence":
                pa, pb = leaves(a["params"]), leaves(prob.pr.params)
                val = float(a["full_fn"](a["data"]["input"], a["data"]["target"], a["params"]))
                want = float(prob.full_fn()(prob.pr.data["input"], prob.pr.data["target"],
                                            prob.pr.params))
                ctx.true("arguments", common.snapshot(a["prior_arguments"])
                         == common.snapshot(prob.args)
                         and all(np.array_equal(x, y) for x, y in zip(pa, pb, strict=True)),
                         part=part)
                ctx.close("arguments", val, want, tol=1e-5, floor=1e-6, part=part)


NAMES = ["mine", "My-Method", "full2", "diag onal", "", "über", "lanczos/custom", "none",
         "FULL_CUSTOM", "0"]


def family_subset(ctx):
    mask = ctx.index % 64
    parts = [p for i, p in enumerate(PARTS) if mask >> i & 1]
    kind = KINDS[(ctx.index // 64 + ctx.index) % 4]
    name = ctx.choice(*NAMES)
    prob = Problem(ctx, kind)
    kind = prob.kind
    sup = Supplied(kind, parts, ctx.choice(0.5, 1.5, 2.0))
    whole = len(parts) == 6
    default = ctx.choice(kind, CurvApprox(kind))
    if whole and ctx.flip():
        default = None
    ctx.desc(parts=parts, name=name, default=str(default))
    with scratch():
        before = contents()
        sup.register(ctx, name, default)
        after = contents()
        for b, a in zip(before, after, strict=True):
            ctx.true("isolated", [x for x in a if x[0] != name] == b, registered=name)
        sup.take()
        got, logs = prob.library(ctx, name, sup.take)
        watch_log(ctx, sup, logs, prob)
        want = prob.direct(sup.uses)
        agree(ctx, got, want)
        if whole:  # nothing of the default type shows
            return
        base = prob.direct(BUILTIN[kind])
        if not parts:
            agree(ctx, got, base)


def family_history(ctx):
    """A history of registrations: each name always answers as last registered."""
    kind = ctx.choice("full", "diagonal", "lanczos")
    prob = Problem(ctx, kind)
    names = ["a", "b", ctx.choice("A", "full-x", "c")]
    builtin = ctx.flip(0.4)  # a built-in name may be replaced as well
    current = {kind: BUILTIN[kind]}
    log = []
    with scratch():
        reference = {kind: prob.direct(BUILTIN[kind])}
        history = []
        for step in range(ctx.int(2, 4)):
            pool = names + ([kind] if builtin and step else [])
            name = pool[0] if step == 0 else ctx.choice(*pool, ctx.choice(*history))
            parts = [p for p in PARTS if ctx.flip(0.4)]
            a = 0.5 + 0.25 * (step + 1)
            sup = Supplied(kind, parts, a, log)
            # a default may itself be a registered name
            dname = ctx.choice(kind, *[h for h in history if h != name])
            uses = {p: sup.mine.get(p, current[dname][p]) for p in PARTS}
            kw = {ARG[p]: f for p, f in sup.mine.items()}
            ctx.call("register_curvature_method", reg.register_curvature_method, name,
                     **kw, default=dname)
            replaced = name in current
            current[name] = uses
            reference[name] = prob.direct(uses)
            history.append(name)
            which = [name, ctx.choice(*current), *([kind] if not builtin else [])]
            for n in dict.fromkeys(which):
                got, _ = prob.library(ctx, n)
                tag = "replaced" if n == name and replaced else "isolated"
                agree(ctx, got, reference[n], name=tag, asked=n, history=history)
        ctx.desc(history=history, builtin=builtin)


def family_reject(ctx):
    mask = ctx.int(0, 62)
    parts = [p for i, p in enumerate(PARTS) if mask >> i & 1]
    kind = ctx.choice("full", "diagonal", "lanczos")
    prob = Problem(ctx, kind)
    sup = Supplied(kind, parts, 2.0)
    kw = {ARG[p]: f for p, f in sup.mine.items()}
    mode = ctx.choice("none", "explicit-none", "unknown")
    if mode == "explicit-none":
        kw["default"] = None
    elif mode == "unknown":
        kw["default"] = ctx.choice("nope", "FULLL", "ggn", "")
    exists = ctx.flip()
    name = "taken" if exists else ctx.choice("fresh", kind)
    ctx.desc(parts=parts, mode=mode, name=name)
    with scratch():
        uses = BUILTIN[kind]
        if exists:
            first = Supplied(kind, [p for p in PARTS if ctx.flip()], 1.5)
            first.register(ctx, name)
            uses = first.uses
        before = contents()
        if mode == "unknown":
            ctx.raises("rejected", lambda: reg.register_curvature_method(name, **kw),
                       KeyError, also=(ValueError,))
        else:
            ctx.raises("rejected", lambda: reg.register_curvature_method(name, **kw),
                       ValueError)
        ctx.true("no-effect", contents() == before, parts=parts, registered=name)
        if name == "fresh":
            ctx.raises("no-effect", lambda: cov.estimate_curvature(name, prob.mv, prob.layout),
                       KeyError, also=(ValueError,))
        else:
            got, _ = prob.library(ctx, name)
            agree(ctx, got, prob.direct(uses), name="no-effect")
        ctx.true("no-effect", not sup.log, log=[p for p, _ in sup.log])


# -- calibration methods ------------------------------------------------------
def fitted(ctx):
    pr = gen.make_problem(ctx, ["mse"], small=True, out="vec", n=3)
    kind = ctx.choice("full", "diagonal")
    M = gen.psd(ctx, pr.P, pr.P)
    est = dev(M if kind == "full" else np.diag(M))
    fn = cov.set_posterior_fn(kind, est, layout=pr.params)
    return pr, kind, est, fn


def family_calibration(ctx):
    pr, kind, est, fn = fitted(ctx)
    names = ["one", "Two", "grid-search", "GRID", ""]
    log = []

    def method(tag):
        def run(objective, data=None, **kw):
            val = objective({"prior_prec": jnp.asarray(1.5)}, data)
            log.append((tag, data, kw, val))
            return {"prior_prec": 1.25 + tag, "sigma_squared": 0.5}
        return run
    jit = ctx.flip()
    what = ctx.choice("nll", "chi_squared", "marginal_log_likelihood")
    form = ctx.choice("dict", "tuple", "list")
    data = {"dict": pr.data, "tuple": (pr.data["input"], pr.data["target"]),
            "list": [pr.data["input"], pr.data["target"]]}[form]
    ctx.desc(jit=jit, objective=what, form=form)

    def go(name, **kw):
        return api.calibration(
            fn, pr.model_fn, pr.params, data, loss_fn="mse", curv_estimate=est, curv_type=kind,
            calibration_objective=what, calibration_method=name, objective_jit=jit, **kw)
    with scratch():
        current = {}
        for step in range(ctx.int(1, 3)):
            name = ctx.choice(*names)
            before = contents()
            ctx.call("register_calibration_method", reg.register_calibration_method, name,
                     method(step))
            ctx.true("isolated", contents()[:-1] == before[:-1] and
                     [x for x in contents()[-1] if x[0] != name]
                     == [x for x in before[-1] if x[0] != name], registered=name)
            current[name] = step
        reference = objective_value(pr, kind, est, fn, what)
        for name, tag in current.items():
            extra = ctx.choice({}, {"budget": 3, "mode": "fast"},
                               {"budget": 0, "verbose": False, "patience": None})
            log.clear()
            args, setter = ctx.call("calibration", go, name, **extra)
            ctx.true("selected-by-name", [e[0] for e in log] == [tag], asked=name,
                     got=[e[0] for e in log], want=tag)
            for t, d, kw, val in log:
                ctx.true("calibration-arguments", kw == extra and d is not None
                         and set(d) == {"input", "target"}
                         and np.array_equal(to_np(d["input"]), pr.X)
                         and np.array_equal(to_np(d["target"]), to_np(pr.data["target"])),
                         kw=kw)
                ctx.close("calibration-arguments", val, reference,
                          tol=1e-7 if ctx.x64 else 2e-3, floor=1.0)
                ctx.true("calibration-result", args == {"prior_prec": 1.25 + t,
                                                        "sigma_squared": 0.5}, got=args)
            ctx.true("calibration-result", callable(setter))
        unknown = ctx.choice("nope", "ONE" if "one" in current else "onE", "two ", "random")
        log.clear()
        ctx.raises("unknown-calibration", lambda: go(unknown), ValueError)
        ctx.true("unknown-calibration", not log, log=[e[0] for e in log])
        # the built-in search is still there, under any spelling, and runs no other method
        from laplax.enums import CalibrationMethod
        for spelling in ("grid_search", CalibrationMethod.GRID_SEARCH, "Grid_Search"):
            args, _ = ctx.call("calibration", go, spelling, grid_size=2,
                               log_prior_prec_min=-1.0, log_prior_prec_max=1.0)
            p = float(args["prior_prec"])
            ctx.true("selected-by-name", not log and min(abs(p - 0.1), abs(p - 10)) < 1e-4,
                     got=p, log=[e[0] for e in log])
        if ctx.flip(0.3):  # which may be replaced
            def mine(objective, **kw):
                log.append(("mine", float(objective({"prior_prec": jnp.asarray(1.5)})), kw))
                return 4.5
            reg.register_calibration_method(ctx.choice("grid_search",
                                                       CalibrationMethod.GRID_SEARCH), mine)
            args, _ = ctx.call("calibration", go, "grid_search", grid_size=2)
            ctx.true("selected-by-name", len(log) == 1 and log[0][0] == "mine"
                     and log[0][2].get("grid_size") == 2, log=log)
            ctx.true("calibration-result", args == {"prior_prec": 4.5}, got=args)


def objective_value(pr, kind, est, fn, what):
    """The stated objective at prior precision 1.5, with numpy on dense matrices."""
    from props import c14

    n = pr.P
    est = to_np(est)
    M = est if kind == "full" else np.diag(est)
    tau = 1.5
    if what == "marginal_log_likelihood":
        from props import c11
        return -c11.evidence(pr, M, tau, 1.0, 1.0, 1.0)[0]
    S = np.linalg.inv(M + tau * np.eye(n))
    mean, std = [], []
    for x in pr.X:
        J = pr.model.jac(x)
        mean.append(to_np(pr.model_fn(dev(x), pr.params)).ravel())
        std.append(np.sqrt(np.diag(J @ S @ J.T)))
    mean, std = np.array(mean), np.array(std)
    t = to_np(pr.data["target"]).reshape(mean.shape)
    o = c14.o_nll if what == "nll" else None
    if o is not None:
        return o(mean, std, t)[0]
    return abs(np.mean((mean - t) ** 2 / std**2) - 1)


# -- a registered type in the rest of the library -----------------------------
def family_pipeline(ctx):
    kind = ctx.choice("full", "diagonal", "lanczos")
    prob = Problem(ctx, kind)
    parts = [p for p in PARTS if ctx.flip(0.6)]
    sup = Supplied(kind, parts, ctx.choice(0.5, 1.5))
    pr = prob.pr
    prob.flat, prob.layout = False, prob.ps.tree
    prob.mv = gen.mv_from_dense(prob.A, prob.ps)
    name = ctx.choice("mine", "My-Method", "Full-Custom")
    ctx.desc(parts=parts, name=name)
    with scratch():
        sup.register(ctx, name)
        got, _ = prob.library(ctx, name)
        fn = prob.posterior_fn
        est = sup.uses["create"](prob.mv, layout=prob.layout, **prob.kw)
        s = sup.uses["state"](sup.uses["precision"](est, prob.args, prob.c))
        C = np.stack([to_np(sup.uses["cov"](s)(dev(e))) for e in np.eye(prob.n)], 1)
        L = np.stack([to_np(sup.uses["scale"](s)(dev(e))) for e in np.eye(prob.n)], 1)
        x = pr.X[0]
        J = pr.model.jac(x)
        o = J.shape[0]
        if prob.c == 1.0:
            p = ctx.call("set_lin_pushforward", pf.set_lin_pushforward, model_fn=pr.model_fn,
                         mean_params=pr.params, posterior_fn=fn, prior_arguments=prob.args,
                         pushforward_fns=[pf.lin_setup, pf.lin_pred_mean, pf.lin_pred_var])
            res = ctx.call("predictive", p, dev(x))
            var = to_np(ctx.field("predictive", res, "pred_var")).ravel()
            want = np.diag(J @ C @ J.T)
            size = np.linalg.norm(J) ** 2 * np.linalg.norm(C, 2)
            ctx.close("predictive", var, want, tol=1e-8 if ctx.x64 else 1e-4,
                      floor=size if not ctx.x64 else 1e-3 * size)
            ctx.true("predictive", var.shape == (o,), got=var.shape)
        # samples use the registered square root: the same draws through it
        lin, key = ctx.flip(), ctx.key()
        po = ctx.call("posterior_fn", fn, prob.args, **prob.post_kw())
        raw = cov.Posterior(state=po.state, cov_mv=po.cov_mv, scale_mv=lambda s: lambda v: v)
        mean = np.zeros(prob.n) if lin else prob.ps.theta
        draws = []
        for p in (po, raw):
            st = ctx.call("get_dist_state", pf.get_dist_state, pr.params, pr.model_fn, p,
                          linearized=lin, num_samples=3, key=key)
            get = ctx.field("predictive", st, "get_weight_samples")
            draws.append(np.stack([prob.flatten(get(i)) - mean for i in range(3)], 1))
        ctx.close("predictive", draws[0], L @ draws[1], tol=1e-8 if ctx.x64 else 1e-4,
                  floor=np.linalg.norm(L) + (0 if lin else np.linalg.norm(mean)))
        # calibration finds a registered type by its name
        obj = "marginal_log_likelihood"
        log = []

        def method(objective, data, **kw):
            log.append(float(objective({"prior_prec": jnp.asarray(1.5)}, data)))
            return {"prior_prec": 1.5}
        reg.register_calibration_method("probe", method)
        api_args = dict(loss_fn=pr.loss.lib, curv_estimate=est, curv_type=name,
                        calibration_objective=obj, calibration_method="probe",
                        objective_jit=ctx.flip())
        sup.take()
        ctx.call("calibration", api.calibration, fn, pr.model_fn, pr.params, pr.data,
                 **api_args)
        args = {"prior_prec": jnp.asarray(1.5)}
        p = sup.uses["precision"](est, args, 1.0)
        want = -float(sup.uses["evidence"](p, args, prob.full_fn(), pr.params, pr.data))
        ctx.close("selected-by-name", np.array(log), np.array([want]),
                  tol=1e-7 if ctx.x64 else 1e-4, floor=1.0)
