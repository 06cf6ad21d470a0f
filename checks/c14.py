"""C14: convergence order of the ODE solvers, exactness on polynomials."""
import numpy as np

from vlib import fields as F
from vlib import refs

RULE = ("an order case solves a batch of random smooth time-dependent ODEs with one solver on a sequence of refinements and measures the decay of the root-mean-square error against DOP853; an exactness case solves ODEs with "
        "polynomial solutions; non-trivial: non-linear time-dependent field")
REQUIRE = {"rates": 40, "solves": 1500, "polynomials": 150}
ASSUMPTIONS = ["scipy DOP853 at 1e-12 is the truth"]

METHODS = [("euler", 1), ("ekf0", 1), ("ekf1", 1), ("ekf0", 2), ("ekf1", 2), ("ekf0_2", 1), ("ekf1_2", 1)]


def cases(tier, rng):
    out = []
    for r in range(4 if tier == "quick" else 16):
        for i, (s, q) in enumerate(METHODS):
            out.append(dict(kind="order", solver=s, q=q, d=[1, 2, 3][(i + r) % 3], T=[1.0, 0.5, 2.0][(i // 3 + r) % 3], Ns=[8, 16, 32, 64] if tier == "quick" else [8, 16, 32, 64, 128, 256],
                            sqrt=bool((i + r) % 2), default=bool(q == 1 and (i + r) % 4 < 3), fk=["gen", "autonomous", "gen"][(i + 2 * r) % 3], K=16, cost=3))
    # many short steps, high dimensions, high orders
    for i, (s, q) in enumerate(METHODS):
        out.append(dict(kind="order", solver=s, q=q, d=[5, 6, 7][i % 3], T=1.0, Ns=[250, 500, 1000] if q == 1 and s != "euler" else [8, 16, 32, 64], sqrt=bool(i % 2), default=q == 1, fk="gen", K=6, cost=3))
    for r in range(4 if tier == "quick" else 16):
        for i, (s, q) in enumerate(METHODS[1:]):
            out.append(dict(kind="poly", solver=s, q=q, d=[2, 1, 3][(i + r) % 3], N=[1, 7, 20][(i // 2 + r) % 3], h=[.1, .03, .5][(i + r) % 3], sqrt=bool((i + r) % 2), K=16))
    return out


def make(case, prior_kw):
    from bayesian_sde_solver.ode_solvers import euler, ekf0, ekf1, ekf0_2, ekf1_2
    import jax.numpy as jnp
    s = dict(euler=euler, ekf0=ekf0, ekf1=ekf1, ekf0_2=ekf0_2, ekf1_2=ekf1_2)[case["solver"]]
    if case["solver"] == "euler":
        return lambda x, f, h, N: s(x, f, h, N)
    if case["solver"].endswith("_2"):
        return lambda x, f, h, N: s(None, (x, x, jnp.zeros((len(x), len(x)))), f, h, N, **prior_kw(h))[1]
    return lambda x, f, h, N: s(None, x, f, h, N, **prior_kw(h))


def run(case, mon):
    import jax
    import jax.numpy as jnp
    from scipy.integrate import solve_ivp
    from bayesian_sde_solver.ode_solvers.probnum import IOUP_transition_function as ioup
    rng = np.random.default_rng(case["seed"])
    d, K, q = case["d"], case["K"], case["q"]
    order = 1 if case["solver"] == "euler" else q + 1
    key = "%s q=%d" % (case["solver"], q)
    if case["kind"] == "poly":
        N, h = case["N"], case["h"]
        c = rng.normal(size=(K, q + 1, d))  # coefficients of degree <= q
        Bm, Cm = rng.normal(size=(K, d, d)), rng.normal(size=(K, d, d))
        solve = make(case, lambda h: dict(prior=tuple(map(jnp.asarray, refs.ibm(q, h, d, 1.7))), sqrt=case["sqrt"]))
        pol = lambda c, t: sum(c[j] * t ** j for j in range(q + 1))
        dpol = lambda c, t: sum(j * c[j] * t ** (j - 1) for j in range(1, q + 1))

        def go(c, Bm, Cm):
            return solve(c[0] + 0.0, lambda y, t: dpol(c, t) + Bm @ jnp.sin(Cm @ (y - pol(c, t))), h, N)

        y = np.asarray(jax.jit(jax.vmap(go))(c, Bm, Cm))
        want = np.stack([pol(c[i], N * h) for i in range(K)])
        # rounding is amplified by the field at most like exp(2 L T)
        L = np.array([np.linalg.norm(Bm[i], 2) * np.linalg.norm(Cm[i], 2) for i in range(K)])
        ok = L * N * h < 12
        sc = (1 + np.max(np.abs(c), axis=(1, 2)) * (1 + (N * h) ** q))[:, None] * np.ones((1, d))
        mon.close("polynomial-exact", y[ok], want[ok], rtol=1e-7, atol=0, scale=sc[ok], key=key)
        mon.count("polynomials", ok.sum())
        mon.ev(c, y, n=int(ok.sum()))
        return
    T = case["T"]
    fs = [F.draw_drift(rng, d, case["fk"], .8) for _ in range(K)]
    x0 = rng.normal(size=(K, d))
    F.unusual(rng, x0, far=False)
    fp = F.stack(fs)
    ref = np.stack([solve_ivp(lambda t, x: F.drift(np, fs[i], x, t), (0, T), x0[i], method="DOP853", rtol=1e-12, atol=1e-12).y[:, -1] for i in range(K)])
    solve = make(case, lambda h: dict(sqrt=case["sqrt"]) if case["default"] else dict(prior=ioup(theta=0.0, sigma=1.3, q=q, dt=h, dim=d), sqrt=case["sqrt"]))
    errs = []
    for N in case["Ns"]:
        y = np.asarray(jax.jit(jax.vmap(lambda x, p: solve(x, lambda z, t: F.drift(jnp, p, z, t), T / N, N)))(x0, fp))
        mon.finite("finite", y, key=key)
        errs.append(np.linalg.norm(y - ref, axis=1) / (1 + np.linalg.norm(ref, axis=1)))
        mon.count("solves", K)
    errs = np.array(errs)
    med = np.median(errs, axis=1)
    floor = 1e-11
    rates = np.log2(med[:-1] / med[1:])
    # asymptotic part: the last refinements, pooled
    rate = float(np.log2(med[-3] / max(med[-1], floor)) / 2) if med[-1] > floor else np.inf
    mon.bound("rate", order - .5 - rate if np.isfinite(rate) else -1.0, 0.0, key=key, errors=med, rate=rate)
    mon.margins["rate:" + key] = max(mon.margins.get("rate:" + key, 0.0), (order - .5) / rate if rate > 0 else 9.0)
    mon.bound("error-level", med[-1], .2 * (8 / case["Ns"][-1]) ** order * max(1.0, T) ** (q + 1) * 3, key=key, errors=med)
    mon.count("rates", len(rates))
    mon.ev(x0, fp["A"], med, n=K * len(case["Ns"]))
    mon.sample(dict(case={k: case[k] for k in ("solver", "q", "d", "T", "default", "sqrt")}, median_errors=med.tolist(), rate=rate))
