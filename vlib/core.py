"""Monitors, verdicts and the worker side of a check.

A check module (checks/cXX.py) provides
  RULE                 text for the evidence file: how cases are made, what makes one non-trivial
  REQUIRE              {counter: minimum}, below which the run is inconclusive (exit 2)
  cases(tier, rng, n)  list of JSON-able dicts, each one executed in a worker process
  run(case, mon)       drives the real code and reports to the monitor
"""
import hashlib
import os
import sys
import time
import traceback

REPO = os.environ.get("VERIF_REPO", "/repo")


def install_repo_loader():
    """Import the code under test from its sources only (never from a stale .pyc), before anything else named alike."""
    import importlib.machinery as m
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    orig = m.SourceFileLoader.get_code

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        if os.path.abspath(path).startswith(REPO + os.sep):
            return self.source_to_code(self.get_data(path), path)
        return orig(self, fullname)

    m.SourceFileLoader.get_code = get_code


class Violated(Exception):
    pass


class Mon:
    """Collects the observations of one case and decides them."""

    def __init__(self, prop):
        self.prop = prop
        self.counters = {}
        self.margins = {}
        self.sigs = set()
        self.evals = 0
        self.violations = []
        self.samples = []
        self.data = {}

    # -- bookkeeping ---------------------------------------------------
    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + int(n)

    def ev(self, *parts, nontrivial=True, n=1):
        """One execution of the system was judged; `parts` identify it."""
        import numpy as np
        self.evals += n
        if nontrivial:
            h = hashlib.sha1()
            for p in parts:
                a = np.asarray(p)
                h.update(str(a.dtype).encode() + (a.tobytes() if a.dtype != object else repr(p).encode()))
            self.sigs.add(h.hexdigest()[:16])

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(obj)

    def fail(self, monitor, **detail):
        if len(self.violations) < 5:
            self.violations.append(dict(monitor=monitor, detail={k: short(v) for k, v in detail.items()}))

    # -- oracles -------------------------------------------------------
    def true(self, name, cond, **detail):
        self.count("checks:" + name)
        if not bool(cond):
            self.fail(name, **detail)
            return False
        return True

    def close(self, name, got, want, rtol=1e-9, atol=1e-12, scale=None, **detail):
        """|got - want| <= atol + rtol * scale elementwise; scale defaults to |want|, may be 'max' or an array."""
        import numpy as np
        got, want = np.asarray(got), np.asarray(want)
        self.count("checks:" + name, max(1, want.size))
        if got.shape != want.shape:
            self.fail(name, reason="shape", got_shape=list(got.shape), want_shape=list(want.shape), **detail)
            return False
        if want.size == 0:
            return True
        got = got.astype(np.float64)
        want = want.astype(np.float64)
        if scale is None:
            s = np.abs(want)
        elif isinstance(scale, str):
            s = np.full(want.shape, np.max(np.abs(want)))
        else:
            s = np.broadcast_to(np.asarray(scale, dtype=np.float64), want.shape)
        tol = atol + rtol * s
        err = np.abs(got - want)
        err = np.where(np.isfinite(got) & np.isfinite(want), err, np.inf)
        with np.errstate(divide="ignore", invalid="ignore"):
            ratio = np.where(err == 0, 0.0, err / tol)
        worst = float(np.max(ratio))
        self.margins[name] = max(self.margins.get(name, 0.0), worst)
        if not worst <= 1.0:
            i = np.unravel_index(int(np.argmax(ratio)), ratio.shape) if ratio.ndim else ()
            self.fail(name, reason="value", index=[int(k) for k in i], got=got[i], want=want[i], tol=tol[i],
                      err_over_tol=worst, **detail)
            return False
        return True

    def equal(self, name, got, want, **detail):
        """Bit-identical (nan equals nan)."""
        import numpy as np
        got, want = np.asarray(got), np.asarray(want)
        self.count("checks:" + name, max(1, want.size))
        ok = got.shape == want.shape and got.dtype == want.dtype and \
            bool(np.array_equal(got, want, equal_nan=got.dtype.kind == "f"))
        if not ok:
            self.fail(name, got=got, want=want, **detail)
        return ok

    def bound(self, name, value, limit, **detail):
        """value <= limit, for statistics; keeps the margin."""
        import numpy as np
        v = np.asarray(value, dtype=float)
        self.count("checks:" + name, max(1, v.size))
        w = float(np.max(np.where(np.isfinite(v), v, np.inf))) if v.size else 0.0
        r = w / limit if limit > 0 else (0.0 if w <= 0 else np.inf)
        self.margins[name] = max(self.margins.get(name, 0.0), r)
        if not w <= limit:
            self.fail(name, value=w, limit=limit, **detail)
            return False
        return True

    def finite(self, name, *arrs, **detail):
        import numpy as np
        ok = all(bool(np.all(np.isfinite(np.asarray(a)))) for a in arrs)
        return self.true(name, ok, **detail)


def short(v):
    import numpy as np
    if isinstance(v, (str, bool, int, float, type(None))):
        return v
    if isinstance(v, (list, tuple)):
        return [short(x) for x in v][:50]
    if isinstance(v, dict):
        return {str(k): short(x) for k, x in v.items()}
    try:
        a = np.asarray(v)
        if a.ndim == 0:
            return a.item()
        return dict(shape=list(a.shape), head=[x.item() if hasattr(x, "item") else str(x) for x in a.ravel()[:24]])
    except Exception:
        return repr(v)[:400]


def rng_of(*parts):
    import numpy as np
    out = []
    for p in parts:
        out.append(int(p) if not isinstance(p, str) else int(hashlib.sha1(p.encode()).hexdigest()[:8], 16))
    return np.random.default_rng(out)


_MODS = {}


def load_check(prop):
    import importlib
    if prop not in _MODS:
        _MODS[prop] = importlib.import_module("checks." + prop.lower())
    return _MODS[prop]


def worker_init(verif_dir):
    os.chdir("/tmp" if os.path.isdir("/tmp") else "/")
    sys.path.insert(0, verif_dir)
    install_repo_loader()
    import warnings
    warnings.filterwarnings("ignore")


def run_case(prop, case):
    """Executes one case; never raises."""
    t0 = time.time()
    mon = Mon(prop)
    exc = None
    try:
        import jax
        jax.config.update("jax_enable_x64", bool(case.get("x64", True)))
        mod = load_check(prop)
        mod.run(case, mon)
    except Exception as e:
        tb = traceback.format_exc()
        exc = True
        mon.fail("no-exception", exception=repr(e)[:600], traceback=tb[-3000:])
    try:
        import jax
        jax.clear_caches()
    except Exception:
        pass
    return dict(case=case, counters=mon.counters, margins=mon.margins, sigs=sorted(mon.sigs), evals=mon.evals,
                violations=mon.violations, samples=mon.samples, data=mon.data, exc=exc, wall=time.time() - t0)
