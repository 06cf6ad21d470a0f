"""C01: the SDE driver as an exact composition of random ODEs."""
import numpy as np

from vlib import fields as F
from vlib import refs

RULE = ("a case is one compiled driver run (drift/diffusion family, d x m, N, delta, Brownian generator, integrator, state structure) on K parameter draws; "
        "recording stubs expose what integrator and generator received on each interval; non-trivial: drift, diffusion and slope all non-zero")
REQUIRE = {"intervals": 400, "probes": 1000, "tuple_states": 50, "coeff_rows": 400, "real_bm_intervals": 50, "real_integrator_intervals": 50}
ASSUMPTIONS = ["numpy/scipy and JAX primitives are trusted"]
R6 = np.sqrt(6.0)


def cases(tier, rng):
    out = []
    dims = [(1, 1), (2, 2), (2, 1), (3, 2), (1, 3), (2, 3), (4, 4)]
    Ns = [1, 2, 3, 7, 16, 33]
    deltas = [0.25, 0.1, 0.013, 1.0, 2.5]
    kinds = [("gen", "gen"), ("gen", "const"), ("linear", "gen"), ("time", "time"), ("autonomous", "autonomous"), ("gen", "rankdef")]
    n = 16 if tier == "quick" else 160
    for i in range(n):
        d, m = dims[i % len(dims)]
        fk, sk = kinds[int(rng.integers(len(kinds)))]
        out.append(dict(kind="stub", d=d, m=m, N=int(Ns[rng.integers(len(Ns))]), delta=float(deltas[rng.integers(len(deltas))]),
                        bm=["stub", "get_approx", "fine", "brownian"][i % 4], state=["tuple", "array"][(i // 4) % 2], fk=fk, sk=sk,
                        K=6, x64=bool(i % 5 != 4), mode=["jv", "eager"][int(i % 8 == 7)]))
    for N, delta in ([(1001, 0.01), (4200, 1e-3)] if tier == "quick" else [(999, .01), (1000, .01), (1001, .01), (1999, .01), (2500, .01), (4200, 1e-3), (9000, 2e-3), (20000, .1)]):
        out.append(dict(kind="stub", d=2, m=2, N=N, delta=delta, bm="stub", state="tuple", fk="gen", sk="time", K=2 if N < 4000 else 1, x64=True, mode="jv", cost=3))
    # extremes of size and scale
    for d, m, N, delta in [(6, 5, 4, .1), (9, 8, 3, .2), (1, 7, 5, .1), (7, 1, 5, .3), (2, 2, 40, 1e-7), (2, 1, 9, 1e-5), (2, 2, 5, 40.0), (3, 2, 130, .02)]:
        out.append(dict(kind="stub", d=d, m=m, N=N, delta=delta, bm="stub", state="tuple", fk="gen" if delta < 10 else "time", sk="gen" if delta < 10 else "time",
                        K=3, x64=True, mode="jv"))
    reals = ["euler", "ekf0", "ekf1", "ekf0_2", "ekf1_2"]
    for i in range(5 if tier == "quick" else 40):
        d, m = [(2, 2), (1, 1), (2, 1), (3, 2)][int(rng.integers(4))]
        out.append(dict(kind="real", integ=reals[i % 5], d=d, m=m, N=int([2, 5, 9][rng.integers(3)]), delta=float([0.2, 0.05][rng.integers(2)]),
                        M=int(rng.integers(1, 5)), bm=["get_approx", "fine", "brownian"][i % 3], fk="gen", sk="gen", K=4, x64=True, mode="jv",
                        sqrt=bool(rng.integers(2)), cost=3))
    return out


def make_bm(jnp, jax, kind, m):
    """-> (driver's bm argument, numpy slope(coeffs_of_interval, t, dt))"""
    from bayesian_sde_solver.foster_polynomial import get_approx, get_approx_and_brownian, get_approx_fine
    if kind == "stub":
        def get_coeffs(key, dt):
            k1, k2 = jax.random.split(key)
            return jax.random.normal(k1, (m,)), jax.random.normal(k2, (2, m)), jnp.asarray(dt), jax.random.uniform(key, (3,))

        def eval_fn(t, dt, a, b, dt2, u):
            return a * jnp.sin(t / dt + u[0]) + b[0] * t + b[1] * (t * dt + u[1] * t ** 2)

        def slope(c, t, dt):
            a, b, dt2, u = c
            return a * np.cos(t / dt + u[0]) / dt + b[0] + b[1] * (dt + 2 * u[1] * t)
        return (lambda: (get_coeffs, eval_fn)), slope

    def slope(c, t, dt):
        return c[0] / dt + R6 * c[1] * (1 - 2 * t / dt) / dt
    bm = {"get_approx": lambda: get_approx(dim=m), "fine": lambda: get_approx_fine(dim=m, N=7),
          "brownian": lambda: get_approx_and_brownian(dim=m, N=9)}[kind]
    return bm, slope


PROBE_T = (0.0, 0.37, 1.0)


def run(case, mon):
    import jax
    import jax.numpy as jnp
    from bayesian_sde_solver.sde_solver import sde_solver
    rng = np.random.default_rng(case["seed"])
    d, m, N, delta, K = case["d"], case["m"], case["N"], case["delta"], case["K"]
    if case["mode"] == "eager":
        K = 1
    size = 0.6 if delta > .5 else 1.0
    fp = F.stack([F.draw_drift(rng, d, case["fk"], size) for _ in range(K)])
    sp = F.stack([F.draw_diffusion(rng, d, m, case["sk"], size) for _ in range(K)])
    x0 = rng.normal(size=(K, d))
    F.unusual(rng, x0, far=case.get("x64", True))
    keys = jax.vmap(jax.random.PRNGKey)(jnp.asarray(rng.integers(0, 2 ** 31, size=K)))
    bm, slope = make_bm(jnp, jax, case["bm"], m)
    f = F.drift
    s = F.sigma
    if case["kind"] == "real":
        return run_real(case, mon, rng, fp, sp, x0, keys, bm, slope)
    offs = rng.normal(size=(len(PROBE_T), d)) * .3

    def ode_int(key, init, vector_field, T):
        x = init[0] if isinstance(init, tuple) else init
        pr = jnp.stack([vector_field(x + offs[i], PROBE_T[i] * T) for i in range(len(PROBE_T))])
        y = x
        n = 2
        h = T / n
        for i in range(n):
            t = i * h
            k1 = vector_field(y, t)
            k2 = vector_field(y + h / 2 * k1, t + h / 2)
            k3 = vector_field(y + h / 2 * k2, t + h / 2)
            k4 = vector_field(y + h * k3, t + h)
            y = y + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
        y = 1.5 * jnp.tanh(y)  # keeps long chains bounded; part of the stub
        if isinstance(init, tuple):
            return (y, x + 0.0, jnp.asarray(T, x.dtype) + 0 * x[0], pr, init[4] + 1)
        return y

    def start(x):
        if case["state"] == "tuple":
            return (x, x - 1.0, jnp.asarray(-1.0, x.dtype), jnp.zeros((len(PROBE_T), d), x.dtype) + 7.0, jnp.asarray(5, jnp.int32))
        return x

    def go(key, x, fp, sp):
        return sde_solver(key, lambda z, t: f(jnp, fp, z, t), lambda z, t: s(jnp, sp, z, t), start(x), bm, delta, N, ode_int)

    dt_ = jnp.float64 if case["x64"] else jnp.float32
    cast = lambda tree: jax.tree_util.tree_map(lambda a: jnp.asarray(a, dt_), tree)
    if case["mode"] == "eager":
        out = jax.tree_util.tree_map(lambda a: np.asarray(a)[None], go(keys[0], cast(x0[0]), cast(F.pick(fp, 0)), cast(F.pick(sp, 0))))
    else:
        out = jax.tree_util.tree_map(np.asarray, jax.jit(jax.vmap(go))(keys, cast(x0), cast(fp), cast(sp)))
    ts, traj, *coeffs = out
    tol = dict(rtol=1e-9, atol=1e-10) if case["x64"] else dict(rtol=3e-4, atol=3e-4)
    ctol = dict(rtol=1e-12, atol=1e-13) if case["x64"] else dict(rtol=2e-6, atol=1e-6)
    fr, sr = jax.tree_util.tree_map(lambda a: np.asarray(cast(a), np.float64), (fp, sp))
    for i in range(K):
        P, S = F.pick(fr, i), F.pick(sr, i)
        mon.close("grid", ts[i], np.arange(N + 1) * delta, rtol=ctol["rtol"], atol=ctol["atol"] * N * delta)
        tr = tuple(np.asarray(z[i]) for z in traj) if case["state"] == "tuple" else (traj[i],)
        for z in tr:
            mon.true("trajectory-length", z.shape[0] == N + 1, shape=list(z.shape))
        xs = tr[0].astype(np.float64)
        st = jax.tree_util.tree_map(np.asarray, start(cast(x0[i])))
        for z, w in zip(tr, st if case["state"] == "tuple" else (st,)):
            mon.equal("initial-row", z[0], w)
        for c in coeffs:
            mon.true("coefficient-rows", c.shape[1] == N, shape=list(c.shape))
        mon.count("coeff_rows", N)
        if case["state"] == "tuple":
            mon.count("tuple_states", N)
            mon.equal("interval-start-state", tr[1][1:], tr[0][:-1])
            mon.close("interval-length", tr[2][1:], np.full(N, delta), **ctol)
            mon.equal("tuple-component", tr[4], np.arange(5, 5 + N + 1).astype(tr[4].dtype))
        for k in range(N):
            tk = k * delta
            ck = [np.asarray(c[i][k], np.float64) for c in coeffs]
            vf = lambda z, t: f(np, P, z, t + tk) + s(np, S, z, t + tk) @ slope(ck, t, delta)
            want = 1.5 * np.tanh(refs.rk4(vf, xs[k], delta / 2, 2))
            mon.close("interval-end-state", xs[k + 1], want, key="end", interval=k, scale=1 + abs(want), **tol)
            mon.count("intervals")
            if case["bm"] != "stub":
                mon.count("real_bm_intervals")
            else:
                mon.close("coefficient-dt", ck[2], delta, **ctol)
            if case["state"] == "tuple":
                pw = np.stack([vf(xs[k] + offs[j], PROBE_T[j] * delta) for j in range(len(PROBE_T))])
                mon.close("vector-field-probe", tr[3][k + 1], pw, interval=k, scale=1 + np.max(abs(pw)), **tol)
                mon.count("probes", len(PROBE_T))
        mon.ev(x0[i], fp["A"][i], xs[-1], nontrivial=bool(np.ptp(xs) > 0))
    mon.sample(dict(case={k: case[k] for k in ("d", "m", "N", "delta", "bm", "state", "fk", "sk")}, x_end=tr[0][-1].tolist()))


def run_real(case, mon, rng, fp, sp, x0, keys, bm, slope):
    import jax
    import jax.numpy as jnp
    from bayesian_sde_solver.sde_solver import sde_solver
    from bayesian_sde_solver.ode_solvers import euler, ekf0, ekf1, ekf0_2, ekf1_2
    d, m, N, delta, M, K = case["d"], case["m"], case["N"], case["delta"], case["M"], case["K"]
    name = case["integ"]
    solver = dict(euler=euler, ekf0=ekf0, ekf1=ekf1, ekf0_2=ekf0_2, ekf1_2=ekf1_2)[name]
    two = name.endswith("_2")

    def ode_int(key, init, vector_field, T):
        if name == "euler":
            return solver(init=init, vector_field=vector_field, h=T / M, N=M)
        return solver(None, init=init, vector_field=vector_field, h=T / M, N=M, sqrt=case["sqrt"])

    P0 = 0.01 * np.eye(d)

    def go(key, x, fp, sp):
        init = (x, x, jnp.asarray(P0)) if two else x
        return sde_solver(key, lambda z, t: F.drift(jnp, fp, z, t), lambda z, t: F.sigma(jnp, sp, z, t), init, bm, delta, N, ode_int)

    ts, traj, *coeffs = jax.tree_util.tree_map(np.asarray, jax.jit(jax.vmap(go))(keys, x0, fp, sp))
    prior = refs.ibm(1, delta / M, d)
    for i in range(K):
        P, S = F.pick(fp, i), F.pick(sp, i)
        mon.close("grid", ts[i], np.arange(N + 1) * delta, rtol=1e-12, atol=1e-12)
        tr = [z[i] for z in traj] if two else [traj[i]]
        mon.equal("initial-row", tr[0][0], x0[i])
        if two:
            mon.equal("initial-row", tr[1][0], x0[i])
            mon.equal("initial-row", tr[2][0], P0)
        for k in range(N):
            tk = k * delta
            ck = [c[i][k] for c in coeffs]
            vf = lambda z, t: F.drift(np, P, z, t + tk) + F.sigma(np, S, z, t + tk) @ slope(ck, t, delta)
            jac = lambda z, t: F.drift_jac(P, z, t + tk) + np.einsum("ikj,k->ij", F.sigma_jac(S, z, t + tk), slope(ck, t, delta))
            if name == "euler":
                y = tr[0][k]
                for j in range(M):
                    y = y + delta / M * vf(y, j * delta / M)
                mon.close("interval-end-state", tr[0][k + 1], y, rtol=1e-9, atol=1e-10, scale="max")
            elif not two:
                mm, PP, _, _ = refs.ode_filter(tr[0][k], vf, jac, None, delta / M, M, prior, 2, ekf0=name == "ekf0")
                mon.close("interval-end-state", tr[0][k + 1], mm[::2], rtol=1e-6, atol=1e-8, scale="max")
            else:
                mm, PP, _, _ = refs.alg3(tr[1][k], tr[2][k], vf, jac, delta / M, M, prior, ekf0=name == "ekf0_2")
                mon.close("interval-end-mean", tr[1][k + 1], mm[::2], rtol=1e-6, atol=1e-8, scale="max")
                mon.close("interval-end-cov", tr[2][k + 1], PP[::2, ::2], rtol=1e-5, atol=1e-10, scale="max")
            mon.count("real_integrator_intervals")
            mon.count("intervals")
        mon.ev(x0[i], fp["A"][i], tr[0][-1])
    mon.sample(dict(case={k: case[k] for k in ("integ", "d", "m", "N", "delta", "M", "bm")}, x_end=tr[0][-1].tolist()))
