"""C02: freshness, independence and purity of the randomness."""
import numpy as np

from vlib import fields as F
from vlib import stats

RULE = ("a case is one batch of runs of a driver or scheme for K master keys; monitors record every key handed to generators, integrators and filters, every coefficient and "
        "every increment recovered from trajectories; non-trivial: at least one interval with non-constant draws")
REQUIRE = {"keys_seen": 4000, "draws": 100000, "rows_compared": 4000, "keyflow_events": 50, "repeat_checks": 8}
ASSUMPTIONS = ["jax.random's split/normal are a sound PRNG on distinct keys"]


def cases(tier, rng):
    q = tier == "quick"
    out = []
    for N in ([1, 2, 5, 64, 1000, 9000] if q else [1, 2, 3, 5, 17, 64, 255, 256, 257, 300, 512, 1000, 1024, 3000, 5000, 20000, 70000]):
        for drv in ("ode", "ssm"):
            out.append(dict(kind="driver-keys", drv=drv, N=N, K=3, x64=True, delta=0.01))
    for bm in ("get_approx", "fine", "brownian"):
        for rep in range(1 if q else 6):
            out.append(dict(kind="driver-stats", bm=bm, N=[200, 50, 400][rep % 3], K=[100, 400, 50][rep % 3], dim=[2, 1, 3][rep % 3],
                            delta=[0.01, 0.3, 2.0][rep % 3], x64=True, cost=3))
    for bm, nf in ([("fine", 300), ("brownian", 1100)] if q else [("fine", 300), ("brownian", 300), ("fine", 1100), ("brownian", 1100), ("fine", 2500), ("brownian", 5000)]):
        out.append(dict(kind="driver-stats", bm=bm, N=12, K=12, dim=1, nf=nf, delta=.1, x64=True, cost=3))
    for sch in ("em", "diag15", "hypo"):
        for rep in range(2 if q else 8):
            out.append(dict(kind="scheme", scheme=sch, N=[300, 3000][rep % 2], K=[100, 4][rep % 2], dim=[2, 3, 4, 2][rep % 4] if sch != "hypo" else 2 + rep % 2,
                            h=[0.1, 0.01, 1.0][rep % 3], x64=True, cost=2))
        for N in ((9000,) if q else (9000, 70000)):
            out.append(dict(kind="scheme", scheme=sch, N=N, K=2, dim=2, h=.01, x64=True, cost=2))
    for w in ("ode-get_approx", "ode-fine", "ode-brownian", "ode-filter", "ssm", "em", "diag15", "hypo"):
        for rep in range(1 if q else 3):
            out.append(dict(kind="keyflow", what=w, N=3 + rep, x64=bool(rep % 2 == 0), cost=3))
    for rep in range(2 if q else 8):
        out.append(dict(kind="depends", bm=["get_approx", "fine", "brownian"][rep % 3], N=[4, 20][rep % 2], x64=True, delta=0.05, cost=3))
    return out


def run(case, mon):
    globals()["run_" + case["kind"].replace("-", "_")](case, mon, np.random.default_rng(case["seed"]))


def masters(rng, K):
    """distinct master keys, both words of the key in use; consecutive ones share the low, then the high word"""
    import jax.numpy as jnp
    lo = rng.choice(2 ** 31, size=K, replace=False).astype(np.uint64)
    hi = (rng.choice(2 ** 31 - 1, size=K, replace=False).astype(np.uint64) + np.uint64(1)) * np.uint64(2) + np.uint64(1)
    hi[0] = 0                                  # the plain PRNGKey(seed)
    for i in range(1, K):
        if i % 3 == 1:
            lo[i] = lo[i - 1]
        elif i % 3 == 2:
            hi[i] = hi[i - 1]
    return [int(v) for v in (hi << np.uint64(32)) | lo], jnp.asarray(np.stack([hi, lo], axis=1).astype(np.uint32))


def run_driver_keys(case, mon, rng):
    import jax
    import jax.numpy as jnp
    from bayesian_sde_solver.sde_solver import sde_solver
    from bayesian_sde_solver.ssm_parabola import ssm_parabola_ode_solver
    N, K, delta = case["N"], case["K"], case["delta"]
    ints, keys = masters(rng, K)
    f64 = lambda k: jnp.ravel(k).astype(jnp.float64)
    f = lambda x, t: 0 * x
    if case["drv"] == "ode":
        def bm():
            return (lambda key, dt: (f64(key), jax.random.normal(key, (1,)))), (lambda t, dt, k, n: n * t)
        s = lambda x, t: jnp.zeros((2, 1))
        go = lambda key: sde_solver(key, f, s, jnp.zeros(2), bm, delta, N, lambda key, init, vector_field, T: f64(key))
        ts, traj, ck, cn = map(np.asarray, jax.jit(jax.vmap(go))(keys))
        ck = ck.reshape(K, N, -1)
    else:
        s = lambda x, t: jnp.zeros((2, 2))
        go = lambda key: ssm_parabola_ode_solver(key, f, s, jnp.zeros(2), delta, N,
                                                 lambda key, init, drift, diffusion, T: (f64(key), init, init))
        ts, traj = map(np.asarray, jax.jit(jax.vmap(go))(keys))
        ck = None
    sk = traj[:, 1:]
    allk = [np.asarray(keys, np.float64).reshape(-1, 2), sk.reshape(-1, 2)] + ([ck.reshape(-1, 2)] if ck is not None else [])
    rows = np.concatenate(allk)
    mon.count("keys_seen", len(rows))
    stats.distinct_rows(mon, "keys-pairwise-distinct", rows, key=case["drv"], N=N)
    for i in range(K):
        mon.ev(sk[i])
    # one step further: the first draws taken from those keys are not shared either
    mon.sample(dict(driver=case["drv"], N=N, master=ints[1 % K], first_sampling_key=sk[0, 0].tolist()))


def make(name, dim, n=6):
    from bayesian_sde_solver.foster_polynomial import get_approx, get_approx_and_brownian, get_approx_fine
    return {"get_approx": lambda: get_approx(dim=dim), "fine": lambda: get_approx_fine(dim=dim, N=n),
            "brownian": lambda: get_approx_and_brownian(dim=dim, N=n)}[name]


def run_driver_stats(case, mon, rng):
    import jax
    import jax.numpy as jnp
    from bayesian_sde_solver.sde_solver import sde_solver
    N, K, p, dt, nf = case["N"], case["K"], case["dim"], case["delta"], case.get("nf", 6)
    _, keys = masters(rng, K)

    def go(key):
        return sde_solver(key, lambda x, t: 0 * x, lambda x, t: jnp.zeros((2, p)), jnp.zeros(2), make(case["bm"], p, nf), dt, N,
                          lambda key, init, vector_field, T: jax.random.normal(key, (2,)))

    ts, traj, a, b, *fine = map(np.asarray, jax.jit(jax.vmap(go))(keys))
    za = a / np.sqrt(dt)
    vb = 0.5 * dt
    if case["bm"] == "brownian":  # exact variance of the trapezoidal functional of the sampled path
        w = np.array([(nf - i + 0.5) / nf - 0.5 for i in range(1, nf + 1)]) * np.sqrt(6) * np.sqrt(dt / nf)
        vb = float(np.sum(w ** 2))
    zb = b / np.sqrt(vb)
    Z = np.concatenate([za, zb, traj[:, 1:]], axis=2)
    stats.standard_normal(mon, "driver-draws", Z, key=case["bm"])
    stats.step_means(mon, "driver-draws", Z, key=case["bm"])
    stats.distinct_rows(mon, "coefficients-distinct", np.concatenate([za.reshape(-1, p), zb.reshape(-1, p)], axis=1))
    if fine:
        scale = 1.0 if case["bm"] == "brownian" else np.sqrt(dt / nf)
        fi = (fine[0] / scale).reshape(K, N * nf, p)
        stats.standard_normal(mon, "fine-draws", fi, key=case["bm"], lags=(1, 2, 3, nf, nf + 1))
        if case["bm"] == "fine":
            fc = (fine[1] / np.sqrt(dt / nf / 12)).reshape(K, N * nf, p)
            stats.standard_normal(mon, "fine-draws", np.concatenate([fi, fc], axis=2), key=case["bm"], lags=(1, nf))
        stats.distinct_rows(mon, "fine-draws-distinct", fi.reshape(-1, p) if p > 1 else fi.reshape(-1, nf))
        stats.distinct_rows(mon, "fine-draws-distinct", fi.reshape(-1, 1), single=True)
    for i in range(K):
        mon.ev(a[i])
    mon.sample(dict(bm=case["bm"], N=N, K=K, first_coefficients=[a[0, 0].tolist(), b[0, 0].tolist()]))


def scheme_noise(case, keys):
    """-> standardised noise (K, N, p) recovered from trajectories with trivial coefficients"""
    import jax
    import jax.numpy as jnp
    from bayesian_sde_solver.sde_solvers import diag_15_scheme, euler_maruyama, hypoelliptic_diffusion_15_scheme
    N, d, h = case["N"], case["dim"], case["h"]
    x0 = jnp.zeros(d)
    if case["scheme"] == "em":
        go = lambda key: euler_maruyama(key, x0, lambda x, t: 0 * x, lambda x, t: jnp.eye(d), h, N)
    elif case["scheme"] == "diag15":
        go = lambda key: diag_15_scheme(key, x0, lambda x: 0 * x, lambda x: jnp.eye(d), h, N)
    else:
        M = np.zeros((d, d))
        M[0, 1:] = 1.0
        S = np.eye(d)
        S[0, 0] = 0
        go = lambda key: hypoelliptic_diffusion_15_scheme(key, x0, lambda x: jnp.asarray(M) @ x, lambda x: jnp.asarray(S), h, N)
    ts, tr = map(np.asarray, jax.jit(jax.vmap(go))(keys))
    if case["scheme"] != "hypo":
        return np.diff(tr, axis=1) / np.sqrt(h), tr
    dr = np.diff(tr[:, :, 1:], axis=1)
    dz = np.diff(tr[:, :, 0], axis=1) - h * tr[:, :-1, 1:].sum(axis=2)  # int of sum of Brownian motions
    m = d - 1
    dz = dz - h / 2 * dr.sum(axis=2)
    return np.concatenate([dr / np.sqrt(h), dz[:, :, None] / np.sqrt(m * h ** 3 / 12)], axis=2), tr


def run_scheme(case, mon, rng):
    import jax
    _, keys = masters(rng, case["K"])
    Z, tr = scheme_noise(case, keys)
    stats.standard_normal(mon, "scheme-noise", Z, key=case["scheme"])
    stats.distinct_rows(mon, "scheme-noise-distinct", np.round(Z.reshape(-1, Z.shape[2]), 9), key=case["scheme"])
    Z2, tr2 = scheme_noise(case, keys)
    mon.equal("repeat-bitwise", tr2, tr, key=case["scheme"])
    mon.count("repeat_checks")
    mon.count("keys_seen", case["K"])
    for i in range(case["K"]):
        mon.ev(tr[i])
    mon.sample(dict(scheme=case["scheme"], h=case["h"], first_noise=Z[0, 0].tolist()))


class KeyFlow:
    """Records which concrete keys the code under test consumes, and how (outermost jax.random call only)."""
    DRAWS = ("normal", "uniform", "multivariate_normal", "bits", "randint", "truncated_normal", "exponential", "laplace", "rademacher",
             "bernoulli", "permutation", "choice", "gamma", "beta", "cauchy", "t", "categorical", "ball", "orthogonal")

    def __init__(self):
        self.log = []
        self.depth = 0

    def rows(self, key):
        import jax
        k = key
        for _ in range(6):
            if isinstance(k, jax.core.Tracer):
                k = getattr(k, "val", None)
        if k is None or isinstance(k, jax.core.Tracer):
            return []
        a = np.asarray(k)
        return [tuple(int(v) for v in r) for r in a.reshape(-1, 2)] if a.dtype == np.uint32 else []

    def __enter__(self):
        import jax
        self.saved = {}
        for n in self.DRAWS + ("split", "fold_in"):
            orig = getattr(jax.random, n, None)
            if orig is None:
                continue
            self.saved[n] = orig

            def wrapped(key, *a, __n=n, __o=orig, **k):
                if self.depth == 0:
                    tag = __n
                    if __n in ("split", "fold_in"):
                        tag = "split"
                    else:
                        tag = __n + repr([getattr(v, "shape", v) for v in a]) + repr(sorted((q, getattr(v, "shape", v)) for q, v in k.items()))
                    for r in self.rows(key):
                        self.log.append((r, tag))
                self.depth += 1
                try:
                    return __o(key, *a, **k)
                finally:
                    self.depth -= 1
            setattr(jax.random, n, wrapped)
        return self

    def __exit__(self, *exc):
        import jax
        for n, o in self.saved.items():
            setattr(jax.random, n, o)


def run_keyflow(case, mon, rng):
    import jax
    import jax.numpy as jnp
    from bayesian_sde_solver.sde_solver import sde_solver
    from bayesian_sde_solver.sde_solvers import diag_15_scheme, euler_maruyama, hypoelliptic_diffusion_15_scheme
    from bayesian_sde_solver.ssm_parabola import ekf0_marginal_parabola, ssm_parabola_ode_solver
    from bayesian_sde_solver.ode_solvers import ekf0, ekf1_2
    w, N, h = case["what"], case["N"], 0.1
    f = lambda x, t: -x
    s2 = lambda x, t: jnp.eye(2)
    x0 = jnp.ones(2)
    kf = KeyFlow()
    key = jax.random.PRNGKey(int(rng.integers(2 ** 31)))
    with kf, jax.disable_jit():
        if w.startswith("ode-"):
            bm = make(w[4:] if w != "ode-filter" else "get_approx", 2, 4)
            if w == "ode-filter":
                ode = lambda key, init, vector_field, T: ekf0(key, init=init, vector_field=vector_field, h=T / 2, N=2)
            else:
                ode = lambda key, init, vector_field, T: init + jax.random.normal(key, (2,))
            out = sde_solver(key, f, s2, x0, bm, h, N, ode)
        elif w == "ssm":
            out = ssm_parabola_ode_solver(key, f, s2, x0, h, N, lambda key, init, drift, diffusion, T: ekf0_marginal_parabola(
                key, init=init, delta=T, drift=drift, diffusion=diffusion, h=T / 2, N=2, sqrt=True))
        elif w == "em":
            out = euler_maruyama(key, x0, f, s2, h, N)
        elif w == "diag15":
            out = diag_15_scheme(key, x0, lambda x: -x, lambda x: jnp.eye(2), h, N)
        else:
            S = jnp.asarray([[0., 0.], [0., 1.]])
            out = hypoelliptic_diffusion_15_scheme(key, x0, lambda x: jnp.asarray([[0., 1.], [-1., 0.]]) @ x, lambda x: S, h, N)
    use = {}
    for r, tag in kf.log:
        use.setdefault(r, set()).add(tag)
    mon.count("keyflow_events", len(kf.log))
    mon.count("keyflow_keys", len(use))
    draws = 0
    for r, tags in use.items():
        dr = {t for t in tags if t != "split"}
        draws += len(dr)
        mon.true("key-consumed-once", len(dr) <= 1 and not (dr and "split" in tags), key=w, consumed=sorted(tags))
    mon.count("keyflow_draws", draws)
    mon.ev(np.asarray(out[1]))
    mon.sample(dict(what=w, events=[[list(r), t] for r, t in kf.log[:6]]))


def run_depends(case, mon, rng):
    import jax
    import jax.numpy as jnp
    from bayesian_sde_solver.sde_solver import sde_solver
    from bayesian_sde_solver.ode_solvers import ekf1, euler
    N, delta = case["N"], case["delta"]
    ints, keys = masters(rng, 3)

    def go(key, d, integ, pert):
        r = np.random.default_rng([int(rng_seed), pert])
        P, S = F.draw_drift(r, d), F.draw_diffusion(r, d, 2)
        x0 = jnp.asarray(r.normal(size=d))
        if integ == "euler":
            o = lambda key, init, vector_field, T: euler(init=init, vector_field=vector_field, h=T / 2, N=2)
        elif integ == "ekf1":
            o = lambda key, init, vector_field, T: ekf1(key, init=init, vector_field=vector_field, h=T, N=1)
        else:
            o = lambda key, init, vector_field, T: init + jax.random.normal(key, init.shape)
        out = sde_solver(key, lambda x, t: F.drift(jnp, P, x, t), lambda x, t: F.sigma(jnp, S, x, t), x0, make(case["bm"], 2), delta, N, o)
        return [np.asarray(o) for o in out]

    rng_seed = case["seed"][1] + 17
    base = go(keys[0], 2, "euler", 0)
    again = go(keys[0], 2, "euler", 0)
    for a, b in zip(base, again):
        mon.equal("repeat-bitwise", b, a)
    mon.count("repeat_checks", 1)
    for d, integ, pert in ((2, "euler", 1), (3, "ekf1", 2), (1, "noise", 3)):
        o = go(keys[0], d, integ, pert)
        for a, b in zip(base[2:], o[2:]):
            mon.equal("coefficients-depend-on-key-only", b, a, key=integ)
        mon.count("repeat_checks", 1)
        o2 = go(keys[0], d, integ, pert)
        for a, b in zip(o, o2):
            mon.equal("repeat-bitwise", b, a, key=integ)
        mon.ev(o[1])
    other = go(keys[1], 2, "euler", 0)
    for a, b in zip(base[1:], other[1:]):
        sub = (a[1:], b[1:]) if a is base[1] else (a, b)
        mon.true("different-keys-differ", bool(np.all(np.any(sub[0].reshape(N, -1) != sub[1].reshape(N, -1), axis=1))))
    mon.ev(base[1])
    mon.count("rows_compared", N)
    mon.sample(dict(bm=case["bm"], N=N, first=base[2][0].tolist()))
