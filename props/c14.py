"""C14: metrics against their definitions in extended precision."""

import jax
import numpy as np
from scipy import special

from laplax.enums import CalibrationErrorNorm
from laplax.eval import metrics as mt
from vlib import common, gen
from vlib.core import to_np
from vlib.gen import dev

RULE = ("metric evaluations with distinct (family, precision, metric, shape, data kind, "
        "target encoding, options) compared with the defining formula")
FAMILIES = {
    "regression": (240, 6000),
    "classification": (240, 6000),
    "calibration": (240, 6000),
    "laws": (120, 3000),
}
REQUIRED = ["rmse", "chi-squared", "chi-squared-zero", "nll", "crps", "correctness",
            "accuracy", "cross-entropy", "brier", "ece", "mce", "bins", "bins:conservation",
            "permutation", "indicator-types", "arguments-untouched"]
LD = np.longdouble


def tol(ctx):
    return 1e-10 if ctx.x64 else 2e-5


def maybe_jit(ctx, fn):
    return jax.jit(fn) if ctx.flip(0.1) else fn


# -- regression ------------------------------------------------------------
def reg_data(ctx, shape):
    s = ctx.choice(1.0, 1.0, 30.0, 1e-2)
    mean = gen.f32(s * ctx.rng.normal(size=shape))
    std = gen.f32(10 ** ctx.rng.uniform(-2, 1, size=shape) * s)
    off = ctx.choice(0.0, 1.0, 3.0)
    tgt = gen.f32(mean + off * std * ctx.rng.normal(size=shape))
    if ctx.flip(0.1) and np.size(tgt):
        tgt = mean.copy()
    if ctx.flip(0.1):  # far in the tails
        tgt = gen.f32(mean + 20 * std * ctx.rng.choice([-1, 1], size=shape))
    ctx.desc(shape=list(shape), scale=s, off=off)
    return mean, std, tgt


def o_rmse(m, t):
    return float(np.sqrt(np.mean((LD(1) * m - t) ** 2)))


def o_chi2(m, s, t, avg=True):
    v = ((LD(1) * m - t) / s) ** 2
    return float(v.mean() if avg else v.sum())


def o_nll(m, s, t, scaled=True):
    z = (LD(1) * t - m) / s
    v = z ** 2 / 2 + np.log(LD(1) * s) + np.log(2 * LD(np.pi)) / 2
    return float(v.mean() if scaled else v.sum()), float(np.abs(v).sum())


def o_crps(m, s, t, scaled=True):
    z = np.asarray((LD(1) * t - m) / s, float)
    v = s * (z * (2 * special.ndtr(z) - 1) + 2 * np.exp(-z * z / 2) / np.sqrt(2 * np.pi)
             - 1 / np.sqrt(np.pi))
    return float(v.mean() if scaled else v.sum()), float(np.abs(s * (1 + np.abs(z))).sum())


def family_regression(ctx):
    shape = ctx.choice((1,), (2,), (7,), (3, 2), (2, 2, 2), (50,), (1, 1), ())
    m, s, t = reg_data(ctx, shape)
    k = tol(ctx)
    a = {"pred_mean": dev(m), "pred_std": dev(s), "target": dev(t)}
    snap = common.snapshot(a)
    extra = {"map": dev(m), "other": 3} if ctx.flip(0.3) else {}
    n = max(1, m.size)
    floor = np.abs(m).max() + np.abs(t).max()
    got = ctx.call("estimate_rmse", maybe_jit(ctx, mt.estimate_rmse), pred_mean=a["pred_mean"],
                   target=a["target"], **extra)
    ctx.close("rmse", got, o_rmse(m, t), tol=k, floor=1e-1 * floor)
    amp = 1 + float(np.max(np.abs(m) / s))  # cancellation in mean - target
    for avg in (True, False):
        kw = {} if avg and ctx.flip() else {"averaged": avg}
        got = ctx.call("chi_squared", mt.chi_squared, **a, **kw, **extra)
        ctx.close("chi-squared", got, o_chi2(m, s, t, avg), tol=k * amp, floor=1e-3)
        kw = {} if avg and ctx.flip() else {"scaled": avg}
        got = ctx.call("nll_gaussian", mt.nll_gaussian, **a, **kw, **extra)
        w, size = o_nll(m, s, t, avg)
        ctx.close("nll", got, w, tol=k * amp, floor=size / (n if avg else 1))
        if shape:
            got = ctx.call("crps_gaussian", mt.crps_gaussian, **a, **kw, **extra)
            w, size = o_crps(m, s, t, avg)
            # the sign convention (score or loss) is the library's; it is negated twice
            ctx.close("crps", got, w, tol=k * amp, floor=size / (n if avg else 1))
    got = ctx.call("chi_squared_zero", mt.chi_squared_zero, **a, **extra)
    ctx.close("chi-squared-zero", got, abs(o_chi2(m, s, t) - 1), tol=k * amp,
              floor=1 + o_chi2(m, s, t))
    ctx.true("arguments-untouched", common.snapshot(a) == snap)


# -- classification ----------------------------------------------------------
def probs(ctx, n, C):
    kind = ctx.choice("soft", "peaked", "logits", "hard", "flat")
    z = ctx.rng.normal(size=(n, C)) * {"soft": 1, "peaked": 8, "logits": 3, "hard": 1,
                                       "flat": 1e-3}[kind]
    p = gen.np_softmax(z)
    if kind == "hard":
        p = np.eye(C)[ctx.rng.integers(0, C, n)]
    if kind == "logits":
        p = z
    ctx.desc(kind=kind, n=n, C=C)
    return gen.f32(p), kind


def family_classification(ctx):
    n, C = ctx.choice(1, 2, 5, 20, 20, 300), ctx.choice(1, 2, 3, 5, 10, 40)
    p, kind = probs(ctx, n, C)
    y = ctx.rng.integers(0, C, n)
    if ctx.flip(0.3):
        y[: n // 2] = p[: n // 2].argmax(1)
    onehot = ctx.flip()
    enc = ctx.choice("int32", "int64", "float32" if onehot else "int32", "bool" if onehot
                     else "uint8")
    ctx.desc(onehot=onehot, enc=enc)
    T = dev(np.eye(C)[y].astype(enc) if onehot else y.astype(enc))
    P = dev(p)
    extra = {"map": P, "z": 1} if ctx.flip(0.3) else {}
    snap = common.snapshot([P, T])
    got = ctx.call("correctness", mt.correctness, P, T, **extra)
    ctx.true("correctness", to_np(got).shape == (n,)
             and np.array_equal(np.asarray(got).astype(bool), p.argmax(1) == y),
             got=got, want=p.argmax(1) == y)
    if not onehot:  # one example at a time
        g1 = ctx.call("correctness", jax.vmap(mt.correctness), P, T)
        ctx.true("correctness", np.array_equal(np.asarray(g1).astype(bool), p.argmax(1) == y))
    if len({*p.ravel().tolist()}) == p.size:  # no ties
        ks = ctx.choice((1,), (1, 2), (2, 1, 3), (5,), (C,), (1, C + 2), (2, 1), (3, 2, 1),
                        (C, 1), (2, 2), [3, 1])
        kw = {} if ks == (1,) and ctx.flip() else {"top_k": ks}
        got = ctx.call("accuracy", mt.accuracy, P, T, **kw, **extra)
        rank = np.array([(p[i] > p[i, y[i]]).sum() for i in range(n)])
        want = [100.0 * np.mean(rank < k) for k in ks]
        ctx.true("accuracy", len(got) == len(ks), got=got, ks=ks)
        ctx.close("accuracy", np.array([float(g) for g in got]), np.array(want), tol=1e-6,
                  floor=1.0, ks=ks)
    if kind != "logits":
        q = np.clip(p, 1e-6, None) if kind != "hard" or ctx.flip() else p
        q = gen.f32(q)
        t = np.eye(C)[y] if ctx.flip() else gen.f32(gen.np_softmax(ctx.rng.normal(size=(n, C))))
        ax = ctx.choice(-1, 1, 0)
        kw = {} if ax == -1 and ctx.flip() else {"axis": ax}
        with np.errstate(divide="ignore"):
            want = -special.xlogy(t, q).sum(axis=ax)
        got = ctx.call("cross_entropy", mt.cross_entropy, dev(t), dev(q), **kw, **extra)
        ctx.close("cross-entropy", got, want, tol=tol(ctx), floor=1.0)
        got = ctx.call("multiclass_brier", mt.multiclass_brier, P, T, **extra)
        want = np.mean((np.eye(C)[y] - p) ** 2)
        # Sum over classes and mean over samples and classes of the squared error
        ctx.close("brier", np.abs(to_np(got)), want, tol=tol(ctx), floor=0.1)
    ctx.true("arguments-untouched", common.snapshot([P, T]) == snap)


# -- calibration ---------------------------------------------------------------
def o_bins(conf, corr, nb):
    """Bins of confidences that are not on an edge."""
    idx = np.minimum(np.floor(conf * nb).astype(int), nb - 1)
    P, C, A = np.zeros(nb), np.zeros(nb), np.zeros(nb)
    for b in range(nb):
        s = idx == b
        if s.any():
            P[b], C[b], A[b] = s.mean(), conf[s].mean(), corr[s].mean()
    return P, C, A


def cal_data(ctx, n, nb):
    kind = ctx.choice("uniform", "high", "edges", "few-bins", "extremes", "one-bin")
    r = ctx.rng
    if kind == "uniform":
        c = r.uniform(0, 1, n)
    elif kind == "high":
        c = 1 - 10 ** r.uniform(-6, -0.5, n)
    elif kind == "edges":
        c = r.integers(0, nb + 1, n) / nb
    elif kind == "few-bins":
        c = r.choice([0.31, 0.77, 0.93], n)
    elif kind == "extremes":
        c = r.choice([0.0, 1.0, 0.5 + 1e-3], n)
    else:
        c = np.full(n, r.uniform(0, 1))
    c = gen.f32(c)
    corr = (r.random(n) < r.uniform(0, 1)).astype(float)
    ctx.desc(kind=kind, n=n, bins=nb)
    return c, corr


def on_edge(ctx, c, nb):
    d = np.abs(c * nb - np.round(c * nb))
    inner = (c > 0) & (c < 1)
    return bool(np.any(d[inner] < (1e-9 if ctx.x64 else 1e-4)))


def enc_corr(corr, kind):
    return {"bool": corr.astype(bool), "int": corr.astype(np.int32),
            "float": corr.astype(float)}[kind]


def family_calibration(ctx):
    n, nb = ctx.choice(1, 2, 7, 40, 40, 400), ctx.choice(1, 2, 5, 10, 15, 15, 30, 60)
    c, corr = cal_data(ctx, n, nb)
    enc = ctx.choice("bool", "int", "float")
    ctx.desc(enc=enc)
    cd, kd = dev(c), dev(enc_corr(corr, enc))
    k = 1e-9 if ctx.x64 else 5e-6
    kw = {"num_bins": nb} if nb != 15 or ctx.flip() else {}
    extra = {"junk": 1} if ctx.flip(0.2) else {}
    snap = common.snapshot([cd, kd])
    P, C, A = (to_np(z) for z in ctx.call("calculate_bin_metrics", mt.calculate_bin_metrics,
                                          cd, kd, **kw, **extra))
    ctx.true("bins", P.shape == C.shape == A.shape == (nb,), shape=P.shape)
    # every sample exactly once, whatever side an edge belongs to
    ctx.close("bins:conservation", np.array([P.sum(), P @ C, P @ A]),
              np.array([1.0, c.mean(), corr.mean()]), tol=k, floor=1.0)
    lo, hi = np.arange(nb) / nb, (np.arange(nb) + 1) / nb
    ok = (P <= 0) | ((C >= lo - 1e-6) & (C <= hi + 1e-6))
    ctx.true("bins", ok.all(), C=C, P=P)
    ctx.true("bins", np.all((P > 0) | ((C == 0) & (A == 0))), P=P, C=C, A=A)
    cnt = P * n
    ctx.close("bins", cnt, np.round(cnt), tol=1e-4, floor=1.0)
    ece = ctx.call("ece", mt.expected_calibration_error, confidence=cd, correctness=kd,
                   num_bins=nb, **extra)
    mce = ctx.call("mce", mt.maximum_calibration_error, confidence=cd, correctness=kd,
                   num_bins=nb, **extra)
    ctx.close("ece", ece, (P * np.abs(C - A)).sum(), tol=k, floor=1.0)
    ctx.close("mce", mce, np.abs(C - A)[P > 0].max(), tol=k, floor=1.0)
    if not on_edge(ctx, c, nb):
        oP, oC, oA = o_bins(c, corr, nb)
        for g, w in ((P, oP), (C, oC), (A, oA)):
            ctx.close("bins", g, w, tol=k, floor=1.0)
        ctx.close("ece", ece, (oP * np.abs(oC - oA)).sum(), tol=k, floor=1.0)
        ctx.close("mce", mce, np.abs(oC - oA)[oP > 0].max(), tol=k, floor=1.0)
    else:
        # on an edge: the sample is in one of its two bins
        def upto(x):
            return (c <= x + 1e-6).mean(), (c < x - 1e-6).mean()
        cum = np.cumsum(P)
        for b in range(nb - 1):
            up, dn = upto(hi[b])
            ctx.true("bins", dn - 1e-5 <= cum[b] <= up + 1e-5, b=b, cum=cum[b], up=up, dn=dn)
    norm = ctx.choice(CalibrationErrorNorm.L1, CalibrationErrorNorm.INF)
    g = ctx.call("calibration_error", mt.calibration_error, confidence=cd, correctness=kd,
                 num_bins=nb, norm=norm)
    ctx.close("ece", g, ece if norm == CalibrationErrorNorm.L1 else mce, tol=1e-6, floor=1e-3)
    ctx.true("arguments-untouched", common.snapshot([cd, kd]) == snap)


def family_laws(ctx):
    """Order of the data and encoding of correctness do not matter."""
    k = 1e-9 if ctx.x64 else 5e-5
    n = ctx.choice(2, 7, 23)
    q = ctx.rng.permutation(n)
    m, s, t = reg_data(ctx, (n,))
    amp = 1 + float(np.max(np.abs(m) / s))
    for name in ("estimate_rmse", "chi_squared", "nll_gaussian", "crps_gaussian"):
        f = getattr(mt, name)
        a = ctx.call(name, f, pred_mean=dev(m), pred_std=dev(s), target=dev(t))
        b = ctx.call(name, f, pred_mean=dev(m[q]), pred_std=dev(s[q]), target=dev(t[q]))
        ctx.close("permutation", b, to_np(a), tol=k * amp, floor=1.0, metric=name)
    nb = ctx.choice(4, 10, 15)
    c, corr = cal_data(ctx, n, nb)
    base = None
    for enc in ("bool", "int", "float"):
        for order in (np.arange(n), q):
            e = np.array([
                float(ctx.call("ece", mt.expected_calibration_error, dev(c[order]),
                               dev(enc_corr(corr, enc)[order]), nb)),
                float(ctx.call("mce", mt.maximum_calibration_error, dev(c[order]),
                               dev(enc_corr(corr, enc)[order]), nb))])
            base = e if base is None else base
            ctx.close("indicator-types" if enc != "bool" else "permutation", e, base, tol=k,
                      floor=1.0, enc=enc)
    C = 4
    p = gen.f32(gen.np_softmax(2 * ctx.rng.normal(size=(n, C))))
    y = ctx.rng.integers(0, C, n)
    oh = np.eye(C)[y]
    for fn in (lambda P, T: mt.accuracy(P, T, top_k=(1, 2))[1], mt.multiclass_brier,
               lambda P, T: np.asarray(mt.correctness(P, T)).mean()):
        a = to_np(ctx.call("metric", fn, dev(p), dev(y)))
        b = to_np(ctx.call("metric", fn, dev(p[q]), dev(oh[q])))
        ctx.close("permutation", b, a, tol=k, floor=0.1)
