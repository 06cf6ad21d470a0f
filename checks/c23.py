"""C23: the progress bar."""
import numpy as np

RULE = ("a case runs scans of N iterations whose body carries the progress bar while every event on the bar object (create, describe, update, close) is logged at the tqdm base class; the log is checked after the run and the results are "
        "compared with the undecorated scan; the driver cases log the bars of the SDE drivers; non-trivial: at least one update event")
REQUIRE = {"scans": 60, "update_events": 10000, "large": 10, "repeats": 20, "drivers": 4, "transparent": 60, "vmapped": 6}
ASSUMPTIONS = ["tqdm's constructor, set_description, update and close are where a bar is observable"]

NS = [1, 2, 3, 19, 20, 21, 50, 100, 500, 997, 998, 999, 1000, 1001, 1002, 1500, 1999, 2000, 2001, 2500, 2999, 3000, 3001, 3500]


def cases(tier, rng):
    out = []
    big = NS + [int(v) for v in rng.integers(1002, 6000, size=8)] + [int(v) for v in rng.integers(1, 1000, size=8)] + [7777, 10000, 10001, 16384, 20001]
    if tier != "quick":
        big = sorted(set(big + list(range(1, 60)) + list(range(990, 1030)) + list(range(1990, 2012)) + [int(v) for v in rng.integers(1002, 30000, size=60)] + [9999, 10000, 10001, 12345, 20000, 99999, 100000]))
    per = 5 if tier == "quick" else 10
    for i in range(0, len(big), per):
        # interleave small and large
        out.append(dict(kind="scan", Ns=big[i // per::max(1, len(big) // per)], i=i))
    for i, N in enumerate([1, 7, 1001, 2500] if tier == "quick" else [1, 2, 7, 50, 999, 1000, 1001, 1500, 2500, 4001]):
        out.append(dict(kind="driver", driver="sde", N=N, vmap=bool(i % 2)))
        out.append(dict(kind="driver", driver="ssm", N=N, vmap=bool(i % 2 == 0)))
    return out


class Log:
    """records the events of every bar; outermost calls only"""

    def __init__(self):
        import tqdm.std as std
        self.cls = std.tqdm
        self.bars = {}
        self.order = []
        self.saved = {n: getattr(self.cls, n) for n in ("__init__", "update", "close", "set_description", "set_description_str")}
        log = self

        def init(s, *a, **k):
            log.saved["__init__"](s, *a, **k)
            log.bars[id(s)] = dict(total=s.total, desc=k.get("desc"), updates=[], closes=0, late=0, keep=s)
            log.order.append(id(s))

        def update(s, n=1):
            b = log.bars.get(id(s))
            if b is not None:
                b["updates"].append(float(n))
                if b["closes"]:
                    b["late"] += 1
            return log.saved["update"](s, n)

        def close(s):
            b = log.bars.get(id(s))
            if b is not None:
                b["closes"] += 1
                b.setdefault("at_close", sum(b["updates"]))
            return log.saved["close"](s)

        def desc(name):
            def set_description(s, desc=None, *a, **k):
                b = log.bars.get(id(s))
                if b is not None:
                    b["desc"] = desc
                return log.saved[name](s, desc, *a, **k)
            return set_description
        for n, f in (("__init__", init), ("update", update), ("close", close), ("set_description", desc("set_description")), ("set_description_str", desc("set_description_str"))):
            setattr(self.cls, n, f)

    def take(self):
        import jax
        from jax.experimental import host_callback
        jax.effects_barrier()
        try:
            host_callback.barrier_wait()
        except Exception:
            pass
        bars = [self.bars[i] for i in self.order]
        self.bars, self.order = {}, []
        return bars

    def restore(self):
        for n, f in self.saved.items():
            setattr(self.cls, n, f)


def judge(mon, bars, N, message, key):
    if not mon.true("one-bar", len(bars) == 1, got=len(bars), N=N, key=key):
        return
    b = bars[0]
    u = np.array(b["updates"])
    mon.count("update_events", len(u))
    mon.true("total", b["total"] == N, got=b["total"], N=N, key=key)
    if message is not None:
        mon.true("description", b["desc"] == message, got=b["desc"], want=message, key=key)
    mon.true("updates-non-negative", np.all(u >= 0), N=N, key=key)
    mon.true("updates-never-exceed", len(u) == 0 or np.max(np.cumsum(u)) <= N, got=float(np.max(np.cumsum(u))) if len(u) else 0, N=N, key=key)
    mon.true("updates-sum", float(u.sum()) == N, got=float(u.sum()), N=N, key=key)
    mon.true("closed-once", b["closes"] == 1, got=b["closes"], N=N, key=key)
    mon.true("closed-after-last", b["late"] == 0, got=b["late"], N=N, key=key)
    mon.true("complete-at-close", b.get("at_close") == N, got=b.get("at_close"), N=N, key=key)
    mon.true("throttled", len(u) <= 3005, got=len(u), N=N, key=key)


def run(case, mon):
    log = Log()
    try:
        return (scans if case["kind"] == "scan" else driver)(case, mon, log)
    finally:
        log.restore()


def bodies(jnp):
    def ints(carry, x):
        i = x[0] if isinstance(x, tuple) else x
        c = carry * jnp.uint32(1664525) + jnp.uint32(1013904223) + i.astype(jnp.uint32)
        return c, c ^ (c >> 7)

    def tup(carry, x):
        i, e, z = x
        a, b = carry
        return (a + e, b + i), (a, z * 2, {"i": i})
    return ints, tup


def scans(case, mon, log):
    import jax
    import jax.numpy as jnp
    from bayesian_sde_solver.utils import progress_bar as pb
    pb = getattr(pb, "progress_bar", pb)
    rng = np.random.default_rng(case["seed"])
    ints, tup = bodies(jnp)
    for j, N in enumerate(case["Ns"]):
        N = int(N)
        mode = ["jit", "plain", "vmap", "jit"][(j + case["i"]) % 4]
        kind = ["plain-x", "tuple-x", "ints-tuple"][(j + case["i"] // 5) % 3]
        msg = [None, "N=%d" % N, "a message with spaces: %d%%" % N, "x"][(j + case["i"]) % 4]
        if kind == "plain-x":
            body, xs, c0 = ints, jnp.arange(N), jnp.uint32(int(rng.integers(2 ** 31)))
        elif kind == "ints-tuple":
            body, xs, c0 = ints, (jnp.arange(N), jnp.ones((N, 2))), jnp.uint32(int(rng.integers(2 ** 31)))
        else:
            body, xs, c0 = tup, (jnp.arange(N), jnp.asarray(rng.normal(size=(N, 2))), jnp.asarray(rng.normal(size=(N,)))), (jnp.zeros(2), jnp.asarray(3))
        dec = pb(N, msg) if j % 2 else pb(num_samples=N, message=msg)
        deco = dec(body)

        def go(f):
            if mode == "vmap":
                w = 3
                rep = jax.tree_util.tree_map(lambda a: jnp.stack([a] * w), c0)
                return jax.jit(jax.vmap(lambda c: jax.lax.scan(f, c, xs)))(rep)
            if mode == "jit":
                return jax.jit(lambda c, x: jax.lax.scan(f, c, x))(c0, xs)
            return jax.lax.scan(f, c0, xs)
        want = jax.tree_util.tree_map(np.asarray, go(body))
        log.take()
        if mode == "jit":
            prog = jax.jit(lambda c, x: jax.lax.scan(deco, c, x))
            runs = [lambda: prog(c0, xs)] * 2
        else:
            runs = [lambda: go(deco)]
        for r, f in enumerate(runs):
            got = jax.tree_util.tree_map(np.asarray, f())
            judge(mon, log.take(), N, msg, "%s %s" % (mode, kind))
            la, lb = jax.tree_util.tree_leaves(got), jax.tree_util.tree_leaves(want)
            mon.true("same-structure", jax.tree_util.tree_structure(got) == jax.tree_util.tree_structure(want))
            for a, b in zip(la, lb):
                if b.dtype.kind == "f":
                    mon.close("results-unchanged", a, b, rtol=1e-12, atol=1e-12, N=N)
                    mon.true("dtype-unchanged", a.dtype == b.dtype)
                else:
                    mon.equal("results-unchanged", a, b, N=N)
            mon.count("transparent")
            mon.count("scans")
            mon.count("repeats", r)
        mon.count("large", N > 1000)
        mon.count("vmapped", mode == "vmap")
        mon.ev([N], mode, kind, str(msg))
    mon.sample(dict(Ns=case["Ns"][:6]))


def driver(case, mon, log):
    import jax
    import jax.numpy as jnp
    from bayesian_sde_solver.foster_polynomial import get_approx
    from bayesian_sde_solver.ode_solvers import euler
    from bayesian_sde_solver.sde_solver import sde_solver
    from bayesian_sde_solver.ssm_parabola import ssm_parabola_ode_solver
    N = case["N"]
    f = lambda x, t: -x + t
    s = lambda x, t: jnp.eye(2) * .1
    if case["driver"] == "sde":
        go = lambda k: sde_solver(k, f, s, jnp.ones(2), lambda: get_approx(dim=2), .01, N, lambda key, init, vector_field, T: euler(init, vector_field, T / 2, 2))[1]
    else:
        go = lambda k: ssm_parabola_ode_solver(k, f, s, jnp.ones(2), .01, N, lambda key, init, drift, diffusion, T: (init + T * drift(init, 0.), 0.))[1]
    keys = jax.random.split(jax.random.PRNGKey(3), 4)
    log.take()
    y = np.asarray(jax.jit(jax.vmap(go))(keys) if case["vmap"] else go(keys[0]))
    judge(mon, log.take(), N, None, case["driver"])
    mon.finite("finite", y)
    mon.count("drivers")
    mon.ev([N], case["driver"])
