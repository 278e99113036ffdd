"""C20: results are the same eager, jitted, vmapped, traced and in either precision."""

import jax
import jax.numpy as jnp
import numpy as np
from jax.experimental import disable_x64, enable_x64

from laplax.api import laplace
from laplax.curv.cov import create_posterior_fn
from laplax.curv.ggn import create_ggn_mv, create_ggn_mv_without_data
from laplax.curv.hessian import create_hessian_mv, create_hessian_mv_without_data
from laplax.eval import likelihood as lk
from laplax.eval import pushforward as pf
from laplax.eval.calibrate import evaluate_for_given_prior_arguments
from vlib import gen, post
from vlib.core import Inconclusive, to_np
from vlib.gen import dev

RULE = ("cases with distinct (family, precision, model, loss, posterior, transformation) whose "
        "transformed results were compared with the eager ones, and derivatives with closed "
        "forms")
FAMILIES = {
    "products": (14, 700),
    "posterior": (16, 800),
    "traced_fit": (8, 300),
    "lin": (12, 500),
    "nonlin": (9, 450),
    "evidence": (18, 800),
    "gradient": (24, 700),
    "precision": (10, 500, "x64"),
}
REQUIRED = ["jit-product", "vmap-product", "dtype", "jit-posterior", "traced-prior",
            "vmap-prior", "jit-fit", "vmap-inputs", "map-inputs", "jit-predictive",
            "traced-predictive", "jit-evidence", "vmap-evidence", "number-forms",
            "evidence-derivative", "variance-derivative", "across-precisions"]


def eps(ctx):
    return 1e-9 if ctx.x64 else 3e-5


def same(ctx, name, got, want, floor=None, tol=None, **info):
    """Two trees of results agree leaf by leaf, relative to the largest entry."""
    g, w = jax.tree.leaves(got), jax.tree.leaves(want)
    if ctx.true(name, len(g) == len(w), got=len(g), want=len(w), **info):
        for a, b in zip(g, w, strict=True):
            if floor is None:
                ctx.close(name, a, b, tol=tol or eps(ctx), floor=1e-6, **info)
            else:
                ctx.close(name, a, b, tol=tol or eps(ctx), floor=floor, **info)


def ambient(ctx, tree, what):
    """Every real-valued leaf has the ambient precision."""
    want = np.dtype("float64" if ctx.x64 else "float32")
    for l in jax.tree.leaves(tree):
        d = getattr(l, "dtype", None)
        if d is not None and np.dtype(d).kind == "f":
            ctx.true("dtype", np.dtype(d) == want, got=str(d), want=str(want), what=what)


def flat_of(tree, lead=()):
    k = len(lead)
    return np.concatenate([to_np(l).reshape(*np.shape(l)[:k], -1) for l in
                           jax.tree.leaves(tree)], -1)


def family_products(ctx):
    which = ctx.choice("ggn", "hessian")
    losses = ["mse", "cross_entropy", "binary_cross_entropy", "huber"] if which == "ggn" else [
        "mse", "cross_entropy", "binary_cross_entropy"]
    pr = gen.make_problem(ctx, losses, small=True, smooth_only=which == "hessian", out="vec",
                          n=ctx.choice(1, 2, 4))
    ctx.desc(which=which)
    ps = pr.model.ps
    if which == "ggn":
        mv = create_ggn_mv(pr.model_fn, pr.params, pr.data, loss_fn=pr.loss.lib)

        def late(params, data, v):
            return create_ggn_mv_without_data(pr.model_fn, params, pr.loss.lib, 1.0)(v, data)
    else:
        mv = create_hessian_mv(pr.model_fn, pr.params, pr.data, loss_fn=pr.loss.lib)

        def late(params, data, v):
            return create_hessian_mv_without_data(pr.model_fn, params, pr.loss.lib, 1.0)(v, data)
    vs = [gen.rand_flat(ctx, ps.size) for _ in range(3)]
    trees = [ps.to_tree(v) for v in vs]
    eager = [ctx.call("product", mv, t) for t in trees]
    ambient(ctx, eager, "product")
    fl = max(np.abs(flat_of(e)).max() for e in eager) + 1e-12
    jmv = jax.jit(mv)
    same(ctx, "jit-product", [ctx.call("jit", jmv, t) for t in trees], eager, floor=fl)
    stack = jax.tree.map(lambda *x: jnp.stack(x), *trees)
    want = jax.tree.map(lambda *x: jnp.stack(x), *eager)
    same(ctx, "vmap-product", ctx.call("vmap", jax.vmap(mv), stack), want, floor=fl)
    same(ctx, "vmap-product", ctx.call("map", lambda: jax.lax.map(mv, stack)), want, floor=fl)
    # parameters, data and vector all traced
    same(ctx, "jit-product", ctx.call("jit", jax.jit(late), pr.params, pr.data, trees[0]),
         eager[0], floor=fl)
    # sums over examples computed under vmap of the data
    if pr.N > 1:
        per = ctx.call("vmap", jax.vmap(lambda x, y: late(
            pr.params, {"input": x[None], "target": y[None]}, trees[1])), pr.data["input"],
            pr.data["target"])
        same(ctx, "vmap-product", jax.tree.map(lambda x: x.sum(0), per), eager[1],
             floor=max(fl, np.abs(flat_of(per)).max()), tol=4 * eps(ctx))


def family_posterior(ctx):
    ps = gen.make_space(ctx, max_p=10, min_p=2)
    p = post.Post(ctx, ps, cond=1e4 if ctx.x64 else 1e2)
    v = ps.to_tree(gen.rand_flat(ctx, ps.size))
    args = {k: float(x) for k, x in p.args.items()}

    def products(a, c):
        r = p.fn(a, c)
        return r.cov_mv(r.state)(v), r.scale_mv(r.state)(v)
    eager = ctx.call("posterior", products, args, p.c)
    ambient(ctx, eager, "posterior")
    sz = [np.linalg.norm(p.cov, 2), np.sqrt(np.linalg.norm(p.cov, 2))]
    tol = 4 * p.tol

    def check(name, got, **info):
        for g, w, s in zip(got, eager, sz, strict=True):
            same(ctx, name, g, w, floor=s, tol=tol, **info)
    check("traced-prior", ctx.call("jit", jax.jit(products), args, p.c))
    check("traced-prior", ctx.call("eager-array", products,
                                   jax.tree.map(jnp.asarray, args), jnp.asarray(p.c)))
    # the posterior object crosses a jit boundary as its state
    r = p.fn(args, p.c)
    check("jit-posterior", (ctx.call("jit", jax.jit(lambda s, v: r.cov_mv(s)(v)), r.state, v),
                            ctx.call("jit", jax.jit(lambda s, v: r.scale_mv(s)(v)), r.state, v)))
    state = ctx.call("jit", jax.jit(lambda a: p.fn(a, p.c).state), args)
    check("jit-posterior", (r.cov_mv(state)(v), r.scale_mv(state)(v)))
    ambient(ctx, (r.state, state), "state")
    # numbers in every form
    for form in (np.float64, lambda x: np.asarray(x), lambda x: dev(np.float64(x))):
        check("number-forms", products({k: form(x) for k, x in args.items()}, form(p.c)))
    whole = float(max(1, round(p.tau)))
    a1, a2 = dict(args, prior_prec=int(whole)), dict(args, prior_prec=whole)
    for g, w in zip(products(a1, p.c), products(a2, p.c), strict=True):
        same(ctx, "number-forms", g, w, tol=tol, floor=1e-9)
    # many priors at once
    taus = np.array([p.tau, 2 * p.tau, 10 * p.tau])
    many = ctx.call("vmap", jax.vmap(lambda t: products(dict(args, prior_prec=t), p.c)),
                    dev(taus))
    for i, t in enumerate(taus):
        one = products(dict(args, prior_prec=float(t)), p.c)
        for g, w, s in zip(many, one, sz, strict=True):
            same(ctx, "vmap-prior", jax.tree.map(lambda x: x[i], g), w, floor=s, tol=tol)
    if p.kind != "diagonal":
        ws = jax.tree.map(lambda x: jnp.stack([x, 2 * x, -x]), v)
        got = ctx.call("vmap", jax.vmap(r.cov_mv(r.state)), ws)
        same(ctx, "jit-posterior", jax.tree.map(lambda x: x[1], got),
             jax.tree.map(lambda x: 2 * x, eager[0]), floor=2 * sz[0], tol=tol)


def family_traced_fit(ctx):
    """The whole fit inside a jit, parameters and data traced."""
    pr = gen.make_problem(ctx, ["mse", "cross_entropy", "binary_cross_entropy"], small=True,
                          out="vec", n=ctx.choice(2, 4))
    kind = ctx.choice("full", "diagonal")
    via = ctx.choice("laplace", "create")
    tau = ctx.logunif(-1, 1)
    v = pr.model.ps.to_tree(gen.rand_flat(ctx, pr.P))
    ctx.desc(curv=kind, via=via, tau=tau)

    def fit(params, data, tau, v):
        if via == "laplace":
            fn, est = laplace(pr.model_fn, params, data, loss_fn=pr.loss.lib, curv_type=kind)
        else:
            mv = create_ggn_mv(pr.model_fn, params, data, loss_fn=pr.loss.lib,
                               num_curv_samples=1, num_total_samples=1)
            fn, est = create_posterior_fn(kind, mv, params), ()
        r = fn({"prior_prec": tau})
        return est, r.cov_mv(r.state)(v), r.scale_mv(r.state)(v)
    eager = ctx.call("fit", fit, pr.params, pr.data, tau, v)
    ambient(ctx, eager, "fit")
    nG = np.linalg.norm(pr.ggn(), 2)
    tol = (1e-9 if ctx.x64 else 1e-4) * (1 + nG / tau)
    got = ctx.call("jit-fit", jax.jit(fit), pr.params, pr.data, tau, v)
    for g, w, f in zip(got, eager, (nG + 1e-6, 1 / tau, 1 / np.sqrt(tau)), strict=True):
        same(ctx, "jit-fit", g, w, tol=tol, floor=f)
    # ... and for several data sets at once
    scaled = jax.tree.map(lambda x: jnp.stack([x, x]), pr.data)
    got = ctx.call("jit-fit", jax.vmap(lambda d: fit(pr.params, d, tau, v)), scaled)
    for g, w, f in zip(got, eager, (nG + 1e-6, 1 / tau, 1 / np.sqrt(tau)), strict=True):
        same(ctx, "jit-fit", jax.tree.map(lambda x: x[1], g), w, tol=tol, floor=f)


def predictives(ctx, make, m, p, xs, tol, scale):
    """One predictive under every transformation against its eager self."""
    args = {k: float(x) for k, x in p.args.items()}
    pred = ctx.call("set_pushforward", make, args)
    X = dev(xs)
    eager = [ctx.call("predictive", pred, x) for x in X]
    ambient(ctx, eager, "predictive")
    keys = sorted(eager[0])

    def check(name, got, i, **info):
        ctx.true(name, sorted(got) == keys, got=sorted(got), want=keys)
        for k in keys:
            f = scale[k] if k in scale else scale["mean"]
            same(ctx, name, got[k], eager[i][k], floor=f, what=k,
                 tol=np.sqrt(tol) if k == "pred_std" else tol, **info)
    jp = jax.jit(pred)
    for i, x in enumerate(X):
        check("jit-predictive", ctx.call("jit", jp, x), i)
    vm = ctx.call("vmap", jax.vmap(pred), X)
    for i in range(len(X)):
        check("vmap-inputs", {k: v[i] for k, v in vm.items()}, i)
    mp = ctx.call("map", lambda: jax.lax.map(pred, X, batch_size=ctx.choice(None, 2)))
    for i in range(len(X)):
        check("map-inputs", {k: v[i] for k, v in mp.items()}, i)
    jv = ctx.call("jit-vmap", jax.jit(jax.vmap(pred)), X)
    check("vmap-inputs", {k: v[0] for k, v in jv.items()}, 0)
    # prior arguments traced, as calibration does
    tr = ctx.call("traced", jax.jit(lambda a, x: make(a)(x)), args, X[0])
    check("traced-predictive", tr, 0)
    arr = ctx.call("arrays", lambda: make({k: jnp.asarray(v) for k, v in args.items()})(X[0]))
    check("traced-predictive", arr, 0)
    got = ctx.call("evaluate", lambda: jax.jit(lambda a: evaluate_for_given_prior_arguments(
        data={"input": X, "target": X}, set_prob_predictive=lambda prior_arguments: make(
            prior_arguments), metric=lambda pred_mean, **kw: pred_mean,
        prior_arguments=a))(args))
    for i in range(len(X)):
        same(ctx, "traced-predictive", got[i], eager[i]["pred_mean"], floor=scale["mean"],
             tol=tol)


def family_lin(ctx):
    m = gen.make_model(ctx, small=True)
    p = post.Post(ctx, m.ps, cond=1e4 if ctx.x64 else 1e2)
    key, n = ctx.key(), ctx.choice(1, 3)
    fns = ctx.choice(pf.DEFAULT_LIN_FINALIZE_FNS,
                     [pf.lin_setup, pf.lin_pred_mean, pf.lin_pred_var, pf.lin_pred_std],
                     [pf.lin_setup, pf.lin_pred_mean, pf.lin_pred_cov, pf.lin_pred_var])
    ctx.desc(fns=[f.__name__ for f in fns], samples=n)

    def make(a):
        return pf.set_lin_pushforward(model_fn=m.model_fn, mean_params=m.params,
                                      posterior_fn=p.fn, prior_arguments=a, pushforward_fns=fns,
                                      key=key, num_samples=n, **p.extra)
    xs = gen.make_inputs(ctx, m, 3)
    J = max(np.linalg.norm(m.jac(x), 2) for x in xs)
    f = max(np.abs(m.out(x)).max() for x in xs) + 1e-3
    s2 = max(J * J, 1e-12) * np.linalg.norm(p.cov, 2)
    predictives(ctx, make, m, p, xs, 8 * p.tol, {
        "mean": f + 1, "pred_var": s2, "pred_cov": s2, "pred_std": np.sqrt(s2),
        "samples": f + 5 * np.sqrt(s2)})


def tight(ctx, m, cond, hi):
    """A posterior whose draws stay where the model is tame."""
    for _ in range(60):
        p = post.Post(ctx, m.ps, cond=cond, hi=hi)
        if np.linalg.norm(p.cov, 2) <= 1:
            return p
    raise Inconclusive("no tight posterior found")


def family_nonlin(ctx):
    m = gen.make_model(ctx, small=True, smooth_only=True)
    p = tight(ctx, m, 1e3 if ctx.x64 else 30.0, 0.3)
    key, n = ctx.key(), ctx.choice(2, 4)
    fns = ctx.choice(pf.DEFAULT_NONLIN_FINALIZE_FNS,
                     [pf.nonlin_setup, pf.nonlin_pred_mean, pf.nonlin_pred_var],
                     [pf.nonlin_setup, pf.nonlin_pred_mean, pf.nonlin_pred_cov,
                      pf.nonlin_pred_std])
    ctx.desc(fns=[f.__name__ for f in fns], samples=n)

    def make(a):
        return pf.set_nonlin_pushforward(model_fn=m.model_fn, mean_params=m.params,
                                         posterior_fn=p.fn, prior_arguments=a,
                                         pushforward_fns=fns, key=key, num_samples=n, **p.extra)
    xs = gen.make_inputs(ctx, m, 3)
    # the spread of a draw, for the size of the outputs it may reach
    r = p.realize(ctx)
    get = pf.set_get_weight_sample(key, m.params, r.scale_mv(r.state), n)
    W = [flat_of(get(i)) for i in range(n)]
    E = max(np.abs(m.out(x, w)).max() for x in xs for w in W) + 1e-3
    K = max(np.linalg.norm(m.jac(x, w), 2) for x in xs for w in W)
    dw = max(np.linalg.norm(w) for w in W)
    amp = max(1.0, K * dw / E)  # how much a rounding of the weights shows
    tol = max(8 * p.tol, 100 * eps(ctx)) * amp
    if not ctx.x64 and tol > 0.05:
        tol = 0.05
    predictives(ctx, make, m, p, xs, tol, {"mean": E, "pred_var": E * E, "pred_cov": E * E,
                                           "pred_std": E, "samples": E})


def evidence_parts(ctx):
    pr = gen.make_problem(ctx, ["mse", "cross_entropy", "binary_cross_entropy", "huber"],
                          small=True)
    kind = ctx.choice(*post.KINDS)
    est, M = post.estimate(ctx, pr.P, kind)
    args, extra, tau, s2, c = post.prior(ctx, M, 1e4 if ctx.x64 else 1e2)
    args = {k: float(x) for k, x in args.items()}
    if ctx.flip(0.3):
        args["sigma"] = 2.0
    ctx.desc(curv=kind, tau=tau, s2=s2, c=c)

    def mll(a, e=est, params=pr.params, data=pr.data):
        return lk.marginal_log_likelihood(e, a, data, pr.model_fn, params, pr.loss.lib, kind,
                                          vmap_over_data=True, loss_scaling_factor=c)
    from props import c11

    _, size = c11.evidence(pr, M, tau, s2, c, args.get("sigma", 1.0))
    return pr, kind, est, M, args, tau, s2, c, mll, size


def family_evidence(ctx):
    pr, kind, est, M, args, tau, s2, c, mll, size = evidence_parts(ctx)
    eager = ctx.call("marginal_log_likelihood", mll, args)
    ambient(ctx, eager, "evidence")
    atol = (1e-9 if ctx.x64 else 2e-5) * (1 + size) + pr.P * post.cov_tol(ctx, M, tau, s2)

    def check(name, got, want=eager):
        g, w = float(got), float(want)
        ctx.true(name, abs(g - w) <= atol, got=g, want=w, atol=atol)
    jitted = jax.jit(mll)
    check("jit-evidence", ctx.call("jit", jitted, args))
    check("jit-evidence", ctx.call("jit", jax.jit(lambda a, e, q, d: mll(a, e, q, d)), args, est,
                                   pr.params, pr.data))
    for form in (np.float64, jnp.asarray, lambda x: np.asarray(x)):
        check("number-forms", ctx.call("forms", mll, {k: form(x) for k, x in args.items()}))
    whole = float(max(1, round(tau)))
    check("number-forms", mll(dict(args, prior_prec=int(whole))),
          mll(dict(args, prior_prec=whole)))
    taus = np.array([tau, 2 * tau, 8 * tau])
    many = ctx.call("vmap", jax.vmap(lambda t: mll(dict(args, prior_prec=t))), dev(taus))
    ctx.true("vmap-evidence", np.shape(many) == (3,), got=np.shape(many))
    th2 = float(pr.model.ps.theta @ pr.model.ps.theta)
    atol += (1e-9 if ctx.x64 else 2e-5) * 8 * tau * th2
    for i, t in enumerate(taus):
        check("vmap-evidence", to_np(many)[i], jitted(dict(args, prior_prec=float(t))))


def family_gradient(ctx):
    if ctx.flip():
        pr, kind, est, M, args, tau, s2, c, mll, size = evidence_parts(ctx)
        A = s2 * M + tau * np.eye(pr.P)
        Ai = np.linalg.inv(A)
        th2 = float(pr.model.ps.theta @ pr.model.ps.theta)
        want = -0.5 * th2 + 0.5 * pr.P / tau - 0.5 * np.trace(Ai)
        mag = 0.5 * th2 + 0.5 * pr.P / tau + 0.5 * np.abs(np.linalg.eigvalsh(Ai)).sum()
        tol = max(10 * post.cov_tol(ctx, M, tau, s2), 1e-8 if ctx.x64 else 1e-4)
        how = ctx.choice("grad", "jit", "fwd", "value")
        ctx.desc(what="evidence", how=how)

        def f(t):
            return mll(dict(args, prior_prec=t))
        D = {"grad": jax.grad(f), "jit": jax.jit(jax.grad(f)), "fwd": jax.jacfwd(f),
             "value": lambda t: jax.value_and_grad(f)(t)[1]}[how]
        got = ctx.call("derivative", D, tau)
        ambient(ctx, got, "derivative")
        ctx.close("evidence-derivative", got, np.array(want), tol=tol, floor=mag, how=how)
        if ctx.flip(0.4):
            # second derivative (Newton steps on the evidence)
            w2 = -0.5 * pr.P / tau**2 + 0.5 * np.trace(Ai @ Ai)
            got = ctx.call("derivative", jax.jit(jax.grad(jax.grad(f))), tau)
            ctx.close("evidence-derivative", got, np.array(w2), tol=10 * tol,
                      floor=0.5 * pr.P / tau**2 + 0.5 * np.trace(Ai @ Ai), how="second")
        # the whole dictionary at once
        g = ctx.call("derivative", jax.jit(jax.grad(mll)), args)
        ctx.close("evidence-derivative", ctx.field("evidence-derivative", g, "prior_prec"),
                  np.array(want), tol=tol, floor=mag, how="dict")
        if "sigma_squared" in args:
            w = -0.5 * np.trace(Ai @ M)
            ctx.close("evidence-derivative", g["sigma_squared"], np.array(w), tol=tol,
                      floor=abs(w) + pr.P, how="noise")
        return
    m = gen.make_model(ctx, small=True, smooth_only=True)
    lin = ctx.flip(0.7) or not ctx.x64
    p = (post.Post if lin else lambda c, ps, **k: tight(c, m, k["cond"], k["hi"]))(
        ctx, m.ps, cond=1e4 if ctx.x64 else 1e2, hi=0.5)
    args = {k: float(x) for k, x in p.args.items()}
    x = gen.make_inputs(ctx, m, 1)[0]
    J = m.jac(x)
    shape = np.shape(m.out(x))
    how = ctx.choice("rev", "fwd", "jit")
    ctx.desc(what="lin" if lin else "nonlin", how=how)
    wrap = {"rev": jax.jacrev, "fwd": jax.jacfwd, "jit": lambda f: jax.jit(jax.jacrev(f))}[how]
    if lin:
        part, fn = ctx.choice(("pred_var", pf.lin_pred_var), ("pred_std", pf.lin_pred_std),
                              ("pred_cov", pf.lin_pred_cov))
        ctx.desc(part=part)

        def f(t):
            pred = pf.set_lin_pushforward(
                model_fn=m.model_fn, mean_params=m.params, posterior_fn=p.fn,
                prior_arguments=dict(args, prior_prec=t),
                pushforward_fns=[pf.lin_setup, pf.lin_pred_mean, fn], **p.extra)
            return pred(dev(x))[part]
        Ai = np.linalg.inv(p.s2 * p.M + p.tau * np.eye(m.P))
        C, dC = p.c * J @ Ai @ J.T, -p.c * J @ Ai @ Ai @ J.T
        floor = p.c * np.linalg.norm(J, 2) ** 2 * np.linalg.norm(Ai, 2) ** 2 + 1e-30
        tol = max(10 * p.tol, 1e-8 if ctx.x64 else 1e-4)
        if part == "pred_cov":
            want = dC
        elif part == "pred_var":
            want = np.diag(dC).reshape(shape)
        else:
            sd = np.sqrt(np.maximum(np.diag(C), 0))
            if sd.min() < 1e-3 * np.sqrt(np.linalg.norm(C, 2) + 1e-30) or sd.min() < 1e-6:
                part = None  # the root is not differentiable at (near) zero variance
            else:
                want = (np.diag(dC) / (2 * sd)).reshape(shape)
                floor = floor / (2 * sd.min())
                tol *= 10
        got = ctx.call("derivative", wrap(f), p.tau)
        ambient(ctx, got, "derivative")
        if part is None:
            ctx.event()
            return
        if part == "pred_cov" and np.size(got) == np.size(want) == 1:
            got, want = np.reshape(got, ()), np.reshape(want, ())
        ctx.close("variance-derivative", got, want, tol=tol, floor=floor, how=how)
        return
    key, n = ctx.key(), 4

    def var(t):
        pred = pf.set_nonlin_pushforward(
            model_fn=m.model_fn, mean_params=m.params, posterior_fn=p.fn,
            prior_arguments=dict(args, prior_prec=t), key=key, num_samples=n,
            pushforward_fns=[pf.nonlin_setup, pf.nonlin_pred_mean, pf.nonlin_pred_var],
            **p.extra)
        return pred(dev(x))["pred_var"]
    got = ctx.call("derivative", wrap(var), p.tau)
    v = jax.jit(var)
    h = p.tau * 1e-3
    a = (to_np(v(p.tau + h)) - to_np(v(p.tau - h))) / (2 * h)
    b = (to_np(v(p.tau + h / 2)) - to_np(v(p.tau - h / 2))) / h
    want = (4 * b - a) / 3
    ctx.close("variance-derivative", got, want, tol=1e-3,
              floor=1e-3 * np.abs(to_np(v(p.tau))).max() / p.tau + 1e-30, how="sampling")


def family_precision(ctx):
    """The same request in both modes, from the same 32-bit numbers."""
    pr = gen.make_problem(ctx, ["mse", "cross_entropy", "binary_cross_entropy"], small=True,
                          out="vec", n=ctx.choice(2, 4), smooth_only=True)
    kind = ctx.choice("full", "diagonal")
    x = gen.make_inputs(ctx, pr.model, 1)[0]
    theta = pr.model.ps.theta
    v = gen.rand_flat(ctx, pr.P)
    key = ctx.int(0, 2**31 - 1)
    G = pr.ggn()
    nG = np.linalg.norm(G, 2)
    tau = max(ctx.logunif(-1, 1), 1e-2 * nG, 1e-2)
    tau = float(np.float32(tau))
    ctx.desc(curv=kind, tau=tau)
    pick = ctx.choice("lin", "nonlin")

    def run(dt):
        cast = lambda a: jnp.asarray(np.asarray(a), dt) if np.asarray(  # noqa: E731
            a).dtype.kind == "f" else jnp.asarray(np.asarray(a))
        params = jax.tree.map(cast, pr.model.ps.to_tree(theta, dt))
        data = jax.tree.map(cast, pr.data)
        vec = jax.tree.map(cast, pr.model.ps.to_tree(v, dt))
        out = {}
        mv = create_ggn_mv(pr.model_fn, params, data, loss_fn=pr.loss.lib)
        out["product"] = mv(vec)
        fn, est = laplace(pr.model_fn, params, data, loss_fn=pr.loss.lib, curv_type=kind)
        out["estimate"] = est
        r = fn({"prior_prec": tau})
        out["cov"], out["scale"] = r.cov_mv(r.state)(vec), r.scale_mv(r.state)(vec)
        kw = dict(model_fn=pr.model_fn, mean_params=params, posterior_fn=fn,
                  prior_arguments={"prior_prec": tau})
        if pick == "lin":
            pred = pf.set_lin_pushforward(pushforward_fns=[
                pf.lin_setup, pf.lin_pred_mean, pf.lin_pred_var, pf.lin_pred_cov], **kw)
        else:
            pred = pf.set_nonlin_pushforward(
                pushforward_fns=[pf.nonlin_setup, pf.nonlin_pred_mean, pf.nonlin_pred_var],
                key=jax.random.key(key), num_samples=2, **kw)
        out["predictive"] = pred(cast(x))
        out["evidence"] = lk.marginal_log_likelihood(
            est, {"prior_prec": tau}, data, pr.model_fn, params, pr.loss.lib, kind,
            vmap_over_data=True)
        if dt == np.float64 and pr.P > 2:  # the draws are not merely stored in 64 bits
            draw = pf.set_get_weight_sample(
                jax.random.key(key), jax.tree.map(jnp.zeros_like, params), lambda z: z, 2)(1)
            ctx.true("full-precision", any(
                np.any(to_np(l) != to_np(l).astype(np.float32)) for l in jax.tree.leaves(draw)))
        for l in jax.tree.leaves(out):
            ctx.true("dtype", l.dtype == dt, got=str(l.dtype), want=str(np.dtype(dt)))
        return jax.tree.map(to_np, out)
    with enable_x64():
        hi = ctx.call("in-64-bit", run, np.float64)
    with disable_x64():
        lo = ctx.call("in-32-bit", run, np.float32)
    ctx.true("dtype", jax.config.jax_enable_x64)
    J = np.linalg.norm(pr.model.jac(x), 2)
    f = np.abs(pr.model.out(x)).max() + 1
    sd = J / np.sqrt(tau)
    amp = 1 + nG / tau
    floors = {"product": nG * np.linalg.norm(v) + 1e-6, "estimate": nG + 1e-6,
              "cov": np.linalg.norm(v) / tau, "scale": np.linalg.norm(v) / np.sqrt(tau),
              "evidence": np.abs(hi["evidence"]) + pr.P * (1 + abs(np.log(tau))) + pr.loss_sum()
              + tau * theta @ theta}
    for k, fl in floors.items():
        same(ctx, "across-precisions", lo[k], hi[k], tol=1e-4 * (1 if k in {
            "product", "estimate"} else amp), floor=fl, what=k)
    if pick == "lin":  # (a draw differs between the modes, its law does not)
        for k, w in hi["predictive"].items():
            same(ctx, "across-precisions", lo["predictive"][k], w, tol=1e-4 * amp,
                 floor=f if k in {"map", "pred_mean"} else sd * sd + 1e-6, what=k)
    else:
        same(ctx, "across-precisions", lo["predictive"]["map"], hi["predictive"]["map"],
             tol=1e-4, floor=f)
