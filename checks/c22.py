"""C22: the marginal-parabola SDE driver."""
import numpy as np

from vlib import fields as F
from vlib import refs

RULE = ("a case is one compiled driver run on K parameter draws with a recording stub filter (probes of the shifted drift and diffusion, interval length, key material, previous state) or with the real filters replayed interval by "
        "interval; non-trivial: time-dependent drift and diffusion")
REQUIRE = {"intervals": 400, "probes": 2000, "keys_seen": 400, "real_intervals": 60, "tuple_states": 100}
ASSUMPTIONS = ["numpy and JAX primitives"]
PROBE_T = (0.0, 0.37, 1.0)


def cases(tier, rng):
    out = []
    for i in range(16 if tier == "quick" else 160):
        out.append(dict(kind="stub", d=[1, 2, 3][i % 3], N=[1, 2, 5, 17, 40][(i // 2) % 5], delta=[.25, .1, .013, 1.0, 2.5][i % 5], state=["tuple", "array"][(i // 2) % 2], fk=["gen", "time", "gen"][i % 3], sk=["gen", "time", "autonomous"][(i // 3) % 3],
                        K=6, x64=bool(i % 5 != 4), mode="eager" if i % 8 == 7 else "jv"))
    for N in ([1001] if tier == "quick" else [999, 1000, 1001, 2000, 2500]):
        out.append(dict(kind="stub", d=2, N=N, delta=.01, state="tuple", fk="gen", sk="gen", K=2, x64=True, mode="jv", cost=3))
    for d, N, delta, K in [(5, 4, .1, 3), (8, 3, .05, 2), (2, 40, 1e-6, 2), (1, 130, .03, 2), (2, 300, .5, 2), (2, 5, 30.0, 2), (2, 4200, 1e-3, 1)]:
        out.append(dict(kind="stub", d=d, N=N, delta=delta, state="tuple", fk="time" if delta > 10 else "gen", sk="time" if delta > 10 else "gen", K=K, x64=True, mode="jv"))
    for d, N, M, delta in [(4, 4, 2, .1), (2, 200, 1, .02), (1, 60, 3, .05)]:
        for k in range(2):
            out.append(dict(kind="real", filter=["ekf0", "ekf1"][k], d=d, N=N, M=M, delta=delta, sqrt=bool(k), K=2, cost=2))
    for i in range(6 if tier == "quick" else 40):
        out.append(dict(kind="real", filter=["ekf0", "ekf1"][i % 2], d=[1, 2, 2][i % 3], N=[3, 8][(i // 2) % 2], M=[1, 3][(i // 2) % 2], delta=[.2, .05][i % 2], sqrt=bool((i // 2) % 2), K=4, cost=2))
    return out


def run(case, mon):
    return (stub if case["kind"] == "stub" else real)(case, mon)


def stub(case, mon):
    import jax
    import jax.numpy as jnp
    from bayesian_sde_solver.ssm_parabola import ssm_parabola_ode_solver
    rng = np.random.default_rng(case["seed"])
    d, N, delta, K = case["d"], case["N"], case["delta"], 1 if case["mode"] == "eager" else case["K"]
    ty = np.float64 if case["x64"] else np.float32
    tup = case["state"] == "tuple"
    fp = F.stack([F.draw_drift(rng, d, case["fk"], .8) for _ in range(K)])
    sp = F.stack([F.draw_diffusion(rng, d, d, case["sk"], .8) for _ in range(K)])
    x0 = rng.normal(size=(K, d))
    F.unusual(rng, x0, far=case.get("x64", True))
    offs = rng.normal(size=(len(PROBE_T), d)) * .3
    keys = jax.vmap(jax.random.PRNGKey)(jnp.asarray(rng.integers(0, 2 ** 31, size=K)))
    cast = lambda t: jax.tree_util.tree_map(lambda a: jnp.asarray(a, ty), t)

    def filt(key, init, drift, diffusion, T):
        x = init[0] if tup else init
        u = jax.random.uniform(key, (2,), x.dtype)
        pf = jnp.stack([drift(x + offs[i], PROBE_T[i] * T) for i in range(len(PROBE_T))])
        ps = jnp.stack([diffusion(x + offs[i], PROBE_T[i] * T) for i in range(len(PROBE_T))])
        y = 1.5 * jnp.tanh(x + T * drift(x, T / 2) + jnp.sqrt(T) * diffusion(x, T / 4) @ jnp.cos(jnp.arange(d) + 1.0) + (u[0] if tup else 0.0))
        if tup:
            y = (y, x + 0.0, jnp.asarray(T, x.dtype) + 0 * x[0], pf, ps, u, init[6] + 1)
        return y, jnp.zeros(d), jnp.ones(d)

    def start(x):
        if tup:
            n = len(PROBE_T)
            return (x, x - 1.0, jnp.asarray(-1.0, x.dtype), jnp.zeros((n, d), x.dtype), jnp.zeros((n, d, d), x.dtype), jnp.zeros(2, x.dtype), jnp.asarray(5, jnp.int32))
        return x

    def go(key, x, fp, sp):
        return ssm_parabola_ode_solver(key, lambda z, t: F.drift(jnp, fp, z, t), lambda z, t: F.sigma(jnp, sp, z, t), start(x), delta, N, filt)

    if case["mode"] == "eager":
        out = jax.tree_util.tree_map(lambda a: np.asarray(a)[None], go(keys[0], cast(x0[0]), cast(F.pick(fp, 0)), cast(F.pick(sp, 0))))
    else:
        out = jax.tree_util.tree_map(np.asarray, jax.jit(jax.vmap(go))(keys, cast(x0), cast(fp), cast(sp)))
    ts, traj = out
    tol = dict(rtol=1e-9, atol=1e-10) if case["x64"] else dict(rtol=3e-4, atol=3e-4)
    fr, sr = jax.tree_util.tree_map(lambda a: np.asarray(cast(a), np.float64), (fp, sp))
    seen = []
    for i in range(K):
        P, S = F.pick(fr, i), F.pick(sr, i)
        mon.close("grid", ts[i], np.arange(N + 1) * delta, rtol=1e-12 if case["x64"] else 2e-6, atol=1e-12 if case["x64"] else 1e-6 * N * delta)
        tr = [np.asarray(z[i]) for z in traj] if tup else [traj[i]]
        for z, w in zip(tr, jax.tree_util.tree_map(np.asarray, start(cast(x0[i]))) if tup else (np.asarray(cast(x0[i])),)):
            mon.true("trajectory-length", z.shape[0] == N + 1, shape=list(z.shape))
            mon.equal("initial-row", z[0], w)
        xs = tr[0].astype(float)
        if tup:
            mon.equal("interval-start-state", tr[1][1:], tr[0][:-1])
            mon.close("interval-length", tr[2][1:], np.full(N, delta), rtol=1e-12 if case["x64"] else 1e-6, atol=0)
            mon.equal("tuple-component", tr[6], np.arange(5, 5 + N + 1).astype(tr[6].dtype))
            seen.append(tr[5][1:])
            mon.count("tuple_states", N)
        for k in range(N):
            tk = k * delta
            x = xs[k]
            u = float(tr[5][k + 1][0]) if tup else 0.0
            want = 1.5 * np.tanh(x + delta * F.drift(np, P, x, tk + delta / 2) + np.sqrt(delta) * F.sigma(np, S, x, tk + delta / 4) @ np.cos(np.arange(d) + 1.0) + u)
            mon.close("interval-end-state", xs[k + 1], want, interval=k, scale=1 + abs(want), **tol)
            if tup:
                wf = np.stack([F.drift(np, P, x + offs[j], tk + PROBE_T[j] * delta) for j in range(len(PROBE_T))])
                ws = np.stack([F.sigma(np, S, x + offs[j], tk + PROBE_T[j] * delta) for j in range(len(PROBE_T))])
                mon.close("drift-probe", tr[3][k + 1], wf, interval=k, scale=1 + np.max(abs(wf)), **tol)
                mon.close("diffusion-probe", tr[4][k + 1], ws, interval=k, scale=1 + np.max(abs(ws)), **tol)
                mon.count("probes", 2 * len(PROBE_T))
            mon.count("intervals")
        mon.ev(x0[i], xs[-1], nontrivial=case["fk"] == "gen" or case["sk"] != "autonomous")
    if seen:
        rows = np.concatenate(seen)
        mon.count("keys_seen", len(rows))
        if case["x64"]:
            mon.true("keys-fresh", len(np.unique(rows[:, 0])) == len(rows), rows=len(rows))
    mon.sample(dict(case={k: case[k] for k in ("d", "N", "delta", "state")}, end=tr[0][-1].tolist()))


def real(case, mon):
    import jax
    import jax.numpy as jnp
    from bayesian_sde_solver.ssm_parabola import ekf0_marginal_parabola, ekf1_marginal_parabola, ssm_parabola_ode_solver
    rng = np.random.default_rng(case["seed"])
    d, N, M, delta, K = case["d"], case["N"], case["M"], case["delta"], case["K"]
    solver = dict(ekf0=ekf0_marginal_parabola, ekf1=ekf1_marginal_parabola)[case["filter"]]
    fp = F.stack([F.draw_drift(rng, d, "gen", .8) for _ in range(K)])
    sp = F.stack([F.draw_diffusion(rng, d, d, "gen", .8) for _ in range(K)])
    x0 = rng.normal(size=(K, d))
    F.unusual(rng, x0, far=case.get("x64", True))
    keys = jax.random.split(jax.random.PRNGKey(int(rng.integers(2 ** 31))), K)
    filt = lambda key, init, drift, diffusion, T: solver(None, init=init, drift=drift, diffusion=diffusion, delta=T, h=T / M, N=M, sqrt=case["sqrt"])
    go = lambda key, x, fp, sp: ssm_parabola_ode_solver(key, lambda z, t: F.drift(jnp, fp, z, t), lambda z, t: F.sigma(jnp, sp, z, t), x, delta, N, filt)
    ts, xs = map(np.asarray, jax.jit(jax.vmap(go))(keys, x0, fp, sp))
    pr = refs.ibm(1, delta / M)
    for i in range(K):
        P, S = F.pick(fp, i), F.pick(sp, i)
        mon.close("grid", ts[i], np.arange(N + 1) * delta, rtol=1e-12, atol=1e-12)
        mon.equal("initial-row", xs[i][0], x0[i])
        for k in range(N):
            t0 = k * delta
            mm, _, _, _ = refs.alg4(xs[i][k], lambda x, t: F.drift(np, P, x, t + t0), lambda x, t: F.drift_jac(P, x, t + t0), lambda x, t: F.sigma(np, S, x, t + t0), lambda x, t: F.sigma_jac(S, x, t + t0),
                                    delta, delta / M, M, pr, ekf0=case["filter"] == "ekf0")
            mon.close("interval-end-state", xs[i][k + 1], mm[::4], rtol=1e-6, atol=1e-8, scale=1 + np.max(np.abs(mm)))
            mon.count("real_intervals")
            mon.count("intervals")
        mon.ev(x0[i], xs[i][-1])
