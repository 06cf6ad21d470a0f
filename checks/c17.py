"""C17: uncertainty outputs and calibration."""
import numpy as np

from vlib import fields as F
from vlib import priors, refs

RULE = ("an 'outputs' case compares everything a posterior-propagating filter returns with an independent float64 filter; a 'scale' case re-runs chains of solves with scaled prior and carried covariance and compares; an 'mle' case "
        "compares the diffusion estimate with its definition on random and on real residual sequences; non-trivial: non-zero residuals")
REQUIRE = {"outputs": 150, "sqrt_outputs": 60, "scaled_chains": 60, "estimates": 150, "real_estimates": 60}
ASSUMPTIONS = ["innovation covariance non-singular"]


def cases(tier, rng):
    out = []
    for i in range(18 if tier == "quick" else 180):
        out.append(dict(kind="outputs", filter=["ekf0_2", "ekf1_2"][i % 2], d=[2, 1, 3][(i // 2) % 3], N=[1, 3, 9][(i // 3) % 3], h=[.1, .02, .4][(i // 5) % 3], sqrt=bool((i // 2) % 2),
                        prior=["default", "mixed", "matern", "drifted"][(i // 4) % 4], noise=["none", "full", "zero", "diag"][(i // 2 + i // 8) % 4], P0=["full", "zero", "rank1"][(i // 3) % 3], K=12))
    for i in range(10 if tier == "quick" else 80):
        out.append(dict(kind="scale", filter=["ekf0_2", "ekf1_2"][i % 2], d=[2, 1, 3][(i // 2) % 3], N=[1, 4, 2][(i // 3) % 3], n=[3, 10][(i // 2) % 2], h=[.1, .02, .2][(i // 2) % 3], sqrt=bool((i // 2 + i // 4) % 2),
                        prior=["ibm", "mixed", "matern"][(i // 2) % 3], c=[4.0, 1e-3, 250.0, .3][(i // 2) % 4], P0=["full", "zero", "rank1"][(i // 3) % 3], K=8, cost=2))
    for i in range(8 if tier == "quick" else 60):
        out.append(dict(kind="mle", d=[1, 2, 3, 5][i % 4], n=[1, 7, 100][i % 3], K=20, x64=bool(i % 5 != 4)))
    for i, (d, N, h, pr, noise, P0) in enumerate([(6, 4, .1, "default", "full", "full"), (5, 3, .2, "mixed", "none", "full"), (2, 80, .02, "default", "none", "full"), (2, 5, 1e-4, "default", "none", "full"), (4, 25, .05, "matern", "diag", "rank1"), (2, 2, 6.0, "default", "none", "full"), (1, 3, 40.0, "default", "full", "full"), (2, 4, 1e-6, "default", "none", "full")]):
        for k in range(2):
            out.append(dict(kind="outputs", filter=["ekf0_2", "ekf1_2"][k], d=d, N=N, h=h, sqrt=bool((i + k) % 2), prior=pr, noise=noise, P0=P0, K=5))
    for k in range(2):
        out.append(dict(kind="scale", filter=["ekf0_2", "ekf1_2"][k], d=[5, 2][k], N=[2, 1][k], n=[6, 60][k], h=.05, sqrt=bool(k), prior="ibm", c=[1e6, 1e-5][k], P0="full", K=4, cost=2))
    for d, n in [(8, 40), (2, 1500), (12, 2)]:
        out.append(dict(kind="mle", d=d, n=n, K=6, x64=True))
    return out


def run(case, mon):
    return dict(outputs=outputs, scale=scale, mle=mle)[case["kind"]](case, mon)


def law(rng, kind, d):
    L = rng.normal(size=(d, d)) * .2
    return dict(zero=0 * L, full=L @ L.T + .01 * np.eye(d), rank1=np.outer(L[0], L[0]))[kind]


def outputs(case, mon):
    import jax
    import jax.numpy as jnp
    from bayesian_sde_solver.ode_solvers import ekf0_2, ekf1_2
    rng = np.random.default_rng(case["seed"])
    d, N, h, K = case["d"], case["N"], case["h"], case["K"]
    solver = dict(ekf0_2=ekf0_2, ekf1_2=ekf1_2)[case["filter"]]
    pr = [priors.draw(rng, "ibm" if case["prior"] == "default" else case["prior"], 1, h, d) for _ in range(K)]
    B = dict(fp=F.stack([F.draw_drift(rng, d, "gen", .8) for _ in range(K)]), m=rng.normal(size=(K, d)), P=np.stack([law(rng, case["P0"], d) for _ in range(K)]), pr=[np.stack([p[j] for p in pr]) for j in range(3)])
    F.unusual(rng, B["m"], far=True)
    if case["noise"] != "none":
        B["R"] = np.stack([priors.draw_noise(rng, case["noise"], d) for _ in range(K)])
    B["key"] = np.asarray(jax.random.split(jax.random.PRNGKey(int(rng.integers(2 ** 31))), K))

    def go(B, all_):
        kw = dict(sqrt=case["sqrt"])
        if case["prior"] != "default":
            kw["prior"] = tuple(B["pr"])
        if "R" in B:
            kw["noise"] = B["R"]
        return solver(B["key"], (B["m"], B["m"], B["P"]), lambda x, t: F.drift(jnp, B["fp"], x, t), h, N, return_all=all_, **kw)

    (s, m, P), ex = jax.tree_util.tree_map(np.asarray, jax.jit(jax.vmap(lambda B: go(B, True)))(B))
    s1, m1, P1 = jax.tree_util.tree_map(np.asarray, jax.jit(jax.vmap(lambda B: go(B, False)))(B))
    key = case["filter"] + (" sqrt" if case["sqrt"] else " full")
    mon.close("extra-outputs-change-nothing:mean", m, m1, rtol=1e-8, atol=0, scale=1 + np.max(np.abs(m1)), key=key)
    mon.close("extra-outputs-change-nothing:covariance", P, P1, rtol=1e-8, atol=1e-16, scale="max", key=key)
    if not mon.true("five-outputs", len(ex) == 5, got=len(ex)):
        return
    fs, fm, fP, S, z = ex
    mon.equal("sample-is-solution-part", fs[:, ::2], s, key=key)
    mon.equal("mean-is-solution-part", fm[:, ::2], m, key=key)
    mon.close("covariance-is-solution-part", fP[:, ::2, ::2], P, rtol=1e-12, atol=1e-18, scale="max", key=key)
    mon.true("shapes", z.shape == (K, d) and S.shape == (K, d, d), z=list(z.shape), S=list(S.shape))
    for i in range(K):
        b = jax.tree_util.tree_map(lambda a: a[i], B)
        f, J = (lambda x, t: F.drift(np, b["fp"], x, t)), (lambda x, t: F.drift_jac(b["fp"], x, t))
        (mm, PP, zz, SS), amp = refs.amplification(lambda: refs.alg3(b["m"], b["P"], f, J, h, N, b["pr"], R=b.get("R"), ekf0=case["filter"] == "ekf0_2"))
        if max(amp) > 1e6 or not np.all(np.abs(mm) < 1e6):
            mon.count("skipped_ill_conditioned")
            continue
        tol = 1e-10 * (100 + max(amp))
        mon.close("full-mean", fm[i], mm, rtol=tol, atol=0, scale=1 + np.max(np.abs(mm)), key=key)
        mon.close("full-covariance", fP[i], PP, rtol=tol, atol=1e-15, scale=max(np.max(np.abs(PP)), np.max(np.abs(b["pr"][1]))), key=key)
        mon.close("residual", z[i], zz, rtol=tol, atol=0, scale=1 + np.max(np.abs(zz)) + np.max(np.abs(mm)), key=key)
        mon.close("residual-covariance", S[i], SS, rtol=tol, atol=1e-16, scale=np.max(np.abs(SS)), key=key)
        mon.count("outputs")
        mon.count("sqrt_outputs", case["sqrt"])
        mon.ev(b["m"], z[i], S[i])
    mon.sample(dict(case={k: case[k] for k in ("filter", "d", "N", "h", "prior", "noise", "sqrt")}, z=z[0].tolist(), S=S[0].tolist()))


def scale(case, mon):
    import jax
    import jax.numpy as jnp
    from bayesian_sde_solver.ode_solvers import ekf0_2, ekf1_2
    from bayesian_sde_solver.ode_solvers.probnum.calibration import mle_diffusion
    rng = np.random.default_rng(case["seed"])
    d, N, h, K, n, c = case["d"], case["N"], case["h"], case["K"], case["n"], case["c"]
    solver = dict(ekf0_2=ekf0_2, ekf1_2=ekf1_2)[case["filter"]]
    pr = priors.draw(rng, case["prior"], 1, h, d)
    fp = F.stack([F.draw_drift(rng, d, "gen", .7) for _ in range(K)])
    x0, P0 = rng.normal(size=(K, d)), np.stack([law(rng, case["P0"], d) for _ in range(K)])

    @jax.jit
    def prog(x0, P0, fp, xi, Q, A):
        def one(x, P, p):
            def link(st, k):
                o, (_, fm, fP, S, z) = solver(None, st, lambda y, t: F.drift(jnp, p, y, t + k * N * h), h, N, prior=(xi, Q, A), sqrt=case["sqrt"], return_all=True)
                return o, (o[1], o[2], fm, fP, z, S)
            r = jax.lax.scan(link, (x, x, P), jnp.arange(n) * 1.0)[1]
            return r + (mle_diffusion(r[4], r[5]),)
        return jax.vmap(one)(x0, P0, fp)

    a = [np.asarray(v) for v in prog(x0, P0, fp, pr[0], pr[1], pr[2])]
    b = [np.asarray(v) for v in prog(x0, c * P0, fp, pr[0], c * pr[1], pr[2])]
    pert = [np.asarray(v) for v in prog(x0 * (1 + 1e-9), P0, fp, pr[0], pr[1] * (1 + 1e-9), pr[2])]
    key = case["filter"]
    for i in range(K):
        amp = max(np.max(np.abs(pert[j][i] - a[j][i])) / (1e-9 * (1e-3 + np.max(np.abs(a[j][i])))) for j in (0, 1))
        if not (amp < 1e5 and np.all(np.abs(a[0][i]) < 1e4)):
            mon.count("skipped_ill_conditioned")
            continue
        tol = 1e-9 * (100 + amp)
        ms = 1 + np.max(np.abs(a[2][i]))
        mon.close("means-invariant", b[2][i], a[2][i], rtol=tol, atol=0, scale=ms, key=key)
        mon.close("residuals-invariant", b[4][i], a[4][i], rtol=tol, atol=0, scale=ms, key=key)
        for j, nm in ((1, "covariance"), (3, "full-covariance"), (5, "residual-covariance")):
            mon.close("scales:" + nm, b[j][i] / c, a[j][i], rtol=tol, atol=1e-16, scale=max(np.max(np.abs(a[j][i])), np.max(np.abs(pr[1])) * 1e-3), key=key)
        conds = [np.linalg.cond(S) for S in a[5][i]]
        zz, SS = a[4][i], a[5][i]
        if max(conds) < 1e6:
            want = np.mean([z @ np.linalg.solve((S + S.T) / 2, z) for z, S in zip(zz, SS)]) / d
            mon.close("estimate", a[6][i], want, rtol=1e-6, atol=1e-14, key=key)
            resolved = np.max(np.abs(zz)) > 1e-5 * ms
            if resolved:
                mon.close("estimate-scales-inversely", b[6][i] * c, a[6][i], rtol=tol * 10 * max(conds) * ms / np.max(np.abs(zz)), atol=0, key=key)
            mon.count("real_estimates")
        mon.count("scaled_chains")
        mon.ev(x0[i], a[0][i], b[1][i])
    mon.sample(dict(case={k: case[k] for k in ("filter", "d", "N", "n", "c", "prior")}, estimate=a[6][:3].tolist(), scaled=b[6][:3].tolist()))


def mle(case, mon):
    import jax
    import jax.numpy as jnp
    from bayesian_sde_solver.ode_solvers.probnum.calibration import mle_diffusion
    rng = np.random.default_rng(case["seed"])
    d, n, K = case["d"], case["n"], case["K"]
    ty = np.float64 if case["x64"] else np.float32
    L = rng.normal(size=(K, n, d, d)) + 1.5 * np.eye(d)
    S = L @ np.swapaxes(L, -1, -2) * np.exp(rng.normal(size=(K, n, 1, 1)) * 2) + .1 * np.eye(d)
    z = rng.normal(size=(K, n, d)) * np.exp(rng.normal(size=(K, 1, 1)))
    got = np.asarray(jax.jit(jax.vmap(mle_diffusion))(jnp.asarray(z, ty), jnp.asarray(S, ty)))
    g0 = np.asarray(mle_diffusion(jnp.asarray(z[0], ty), jnp.asarray(S[0], ty)))
    want = np.array([np.mean([a @ np.linalg.solve(C, a) for a, C in zip(z[i], S[i])]) / d for i in range(K)])
    mon.true("estimate-scalar", got.shape == (K,), got=list(got.shape))
    mon.close("estimate", got, want, rtol=1e-9 if case["x64"] else 5e-3, key="random")
    mon.close("estimate", g0, want[0], rtol=1e-9 if case["x64"] else 5e-3, key="random")
    mon.count("estimates", K)
    mon.ev(z, got, n=K)
