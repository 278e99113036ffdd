"""Case context: what a monitored execution may record and how it is judged.

A case is one generated workload driven against the real library.  Every deciding
comparison goes through a named monitor of the context, which counts what it saw.
Verdicts are three-valued: violated (with a witness), held, or inconclusive.
"""

import contextlib
import hashlib
import json
import traceback

import numpy as np


class CaseViolation(Exception):
    """Ends a case that cannot go on after a violation."""


class Inconclusive(Exception):
    """The harness could not decide (its own precondition failed)."""


def to_np(x):
    """Any array-like to a numpy array (floats become float64)."""
    a = np.asarray(x)
    if a.dtype.kind == "f" or str(a.dtype) == "bfloat16":
        a = a.astype(np.float64)
    return a


def short(x, n=400):
    """A short text for witnesses."""
    try:
        if hasattr(x, "shape"):
            a = np.asarray(x)
            s = np.array2string(a, precision=6, threshold=24, edgeitems=4)
            s = f"{a.dtype}{list(a.shape)} {s}"
        else:
            s = repr(x)
    except Exception as e:  # noqa: BLE001
        s = f"<unprintable {type(x).__name__}: {e}>"
    s = " ".join(s.split())
    return s if len(s) <= n else s[:n] + "..."


class Ctx:
    def __init__(self, prop, tier, seed, index, family, x64):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.index, self.family, self.x64 = index, family, x64
        h = hashlib.sha256(f"{prop}/{seed}/{index}/{family}".encode()).digest()
        self.rng = np.random.default_rng(int.from_bytes(h[:8], "little"))
        self.descr = {}
        self.monitors = {}
        self.violations = []
        self.events = 0
        # Relative tolerance for well conditioned quantities.
        self.tol = 1e-8 if x64 else 3e-4

    # -- description -------------------------------------------------------
    def desc(self, **kw):
        for k, v in kw.items():
            if isinstance(v, (np.generic,)):
                v = v.item()
            if not isinstance(v, (str, int, float, bool, type(None), list, tuple)):
                v = short(v, 120)
            self.descr[k] = v

    def signature(self):
        return json.dumps([self.family, self.x64, self.descr], sort_keys=True, default=str)

    def key(self):
        """A fresh jax key."""
        import jax

        return jax.random.key(int(self.rng.integers(0, 2**31 - 1)))

    def choice(self, *opts):
        return opts[int(self.rng.integers(0, len(opts)))]

    def flip(self, p=0.5):
        return bool(self.rng.random() < p)

    def int(self, lo, hi):
        """Integer in [lo, hi]."""
        return int(self.rng.integers(lo, hi + 1))

    def logunif(self, lo, hi):
        v = 10 ** self.rng.uniform(lo, hi)
        return float(np.float32(v))

    # -- monitors ----------------------------------------------------------
    def _seen(self, name):
        self.monitors[name] = self.monitors.get(name, 0) + 1

    def event(self, n=1):
        self.events += n

    def fail(self, name, **info):
        self.violations.append({
            "monitor": name,
            "info": {k: short(v) for k, v in info.items()},
        })

    def true(self, name, cond, **info):
        self._seen(name)
        if not bool(cond):
            self.fail(name, **info)
            return False
        return True

    def close(self, name, got, want, tol=None, floor=0.0, shape=True, **info):
        """Max-norm relative agreement; `floor` is an absolute scale below which
        differences are measured against it rather than against max|want|."""
        self._seen(name)
        tol = self.tol if tol is None else tol
        try:
            g, w = to_np(got), to_np(want)
        except Exception as e:  # noqa: BLE001
            self.fail(name, reason=f"not array-like: {e}", got=got, want=want, **info)
            return False
        if g.dtype.kind not in "fiub" :
            self.fail(name, reason="not numeric", got=got, want=want, **info)
            return False
        if shape and g.shape != w.shape:
            self.fail(name, reason=f"shape {g.shape} != {w.shape}", got=g, want=w, **info)
            return False
        if not shape:
            if g.size != w.size:
                self.fail(name, reason=f"size {g.size} != {w.size}", got=g, want=w, **info)
                return False
            g, w = g.reshape(-1), w.reshape(-1)
        if w.size == 0:
            return True
        g, w = g.astype(np.float64), w.astype(np.float64)
        same = (g == w) | (np.isnan(g) & np.isnan(w))
        if same.all():
            return True
        fin = np.isfinite(w)
        if not np.isfinite(g[fin]).all() or not same[~fin].all():
            self.fail(name, reason="non-finite mismatch", got=g, want=w, **info)
            return False
        scale = max(float(np.max(np.abs(w[fin]))) if fin.any() else 0.0, floor, 1e-300)
        err = float(np.max(np.abs(g[fin] - w[fin]))) / scale
        if not err <= tol:
            self.fail(name, reason=f"relative error {err:.3e} > {tol:.1e}", got=g,
                      want=w, **info)
            return False
        return True

    def rel(self, name, got, want, tol=None, floor=1e-300, **info):
        """Entrywise relative agreement."""
        g, w = to_np(got).astype(float), to_np(want).astype(float)
        if g.shape != w.shape:
            return self.close(name, got, want, tol=tol, **info)
        d = np.maximum(np.abs(w), floor)
        ok = np.isfinite(w)
        return self.close(name, np.where(ok, g / d, g), np.where(ok, w / d, w), tol=tol,
                          got_raw=g, want_raw=w, **info)

    def call(self, label, fn, *args, **kw):
        """Run library code on valid input: an exception is a violation."""
        self.events += 1
        try:
            return fn(*args, **kw)
        except (MemoryError, KeyboardInterrupt, OSError):
            raise
        except Exception as e:  # noqa: BLE001
            self._seen(f"{label}:no-exception")
            self.fail(f"{label}:no-exception", error=f"{type(e).__name__}: {e}",
                      tb="".join(traceback.format_exception(e)[-6:])[-1500:])
            raise CaseViolation from e

    def field(self, name, mapping, key):
        """A key that a result must contain."""
        try:
            return mapping[key]
        except Exception as e:  # noqa: BLE001
            self._seen(name)
            self.fail(name, reason=f"no entry {key!r}: {type(e).__name__}",
                      have=sorted(map(str, mapping)) if hasattr(mapping, "keys") else mapping)
            raise CaseViolation from e

    def raises(self, name, fn, exc=Exception, also=()):
        """Run library code on an invalid request: anything but `exc` is a violation."""
        self._seen(name)
        self.events += 1
        try:
            r = fn()
        except exc as e:  # noqa: BLE001
            return e
        except also as e:  # tolerated alternatives
            return e
        except Exception as e:  # noqa: BLE001
            self.fail(name, reason=f"raised {type(e).__name__}: {e}",
                      expected=getattr(exc, "__name__", exc))
            return e
        self.fail(name, reason="returned a value", value=r,
                  expected=getattr(exc, "__name__", exc))
        return None


@contextlib.contextmanager
def quiet():
    import warnings

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        yield
