"""C08: the 1.5 Ito-Taylor step for diagonal noise."""
import numpy as np

from vlib import fields as F
from vlib import stats

RULE = ("a case is a batch of runs; the noise pairs of every step are recovered from two companion runs with the same keys (zero drift; linear drift), every step is recomputed by the Ito-Taylor formula "
        "with analytic derivatives, the pairs' law is tested; non-trivial: state-dependent diagonal noise and non-linear drift")
REQUIRE = {"steps": 700, "draws": 300000, "multiplicative_steps": 300}
ASSUMPTIONS = ["law decided statistically (z-score limit 7)"]


def cases(tier, rng):
    q = tier == "quick"
    out = []
    for i in range(14 if q else 120):
        out.append(dict(kind="step", d=[2, 1, 3, 4, 2][i % 5], fam=["sin", "poly", "sin", "gbm", "additive"][i % 5], h=[0.1, 0.3, 0.02, 0.5, 0.25][int(rng.integers(5))],
                        N=[1, 6, 25][i % 3], K=12, x64=True, mode="eager" if i % 7 == 6 else "jv", cost=2))
    for d, fam, h, N in [(6, "sin", .1, 4), (5, "poly", .05, 5), (8, "sin", .3, 2), (2, "sin", 1e-3, 150), (2, "sin", 2.0, 2), (3, "gbm", .02, 80), (2, "sin", .02, 1200), (2, "sin", 5.0, 1), (1, "poly", 30.0, 1), (3, "gbm", 400.0, 1)]:
        out.append(dict(kind="step", d=d, fam=fam, h=h, N=N, K=3 if N < 1000 else 1, x64=True, mode="jv", cost=2))
    out.append(dict(kind="law", d=2, h=.05, N=5000, K=10, x64=True))
    out.append(dict(kind="law", d=7, h=.2, N=40, K=300, x64=True))
    out.append(dict(kind="step", d=2, fam="sin", h=0.5, N=3, K=6, x64=False, mode="jv"))
    out.append(dict(kind="step", d=3, fam="poly", h=0.4, N=3, K=6, x64=False, mode="jv"))
    for i in range(4 if q else 24):
        out.append(dict(kind="law", d=[1, 2, 3, 4][i % 4], h=float(np.exp(rng.uniform(np.log(1e-3), np.log(5)))), N=[100, 20, 1000, 1][i % 4], K=[1500, 4000, 60, 30000][i % 4], x64=True))
    return out


def run(case, mon):
    (run_law if case["kind"] == "law" else run_step)(case, mon, np.random.default_rng(case["seed"]))


def companions(keys, d, h, N):
    """noise (dW, dZ), each (K, N, d), recovered from trivial runs with the same keys"""
    import jax
    import jax.numpy as jnp
    from bayesian_sde_solver.sde_solvers import diag_15_scheme
    c = -1.0 / h  # contraction: the linear companion stays bounded
    run = lambda f: np.asarray(jax.jit(jax.vmap(lambda k: diag_15_scheme(k, jnp.zeros(d), f, lambda x: jnp.eye(d), h, N)[1]))(keys)).astype(float)
    dW = np.diff(run(lambda x: 0 * x), axis=1)
    y = run(lambda x: c * x)
    dZ = (y[:, 1:] - y[:, :-1] * (1 + h * c + h * h * c * c / 2) - dW) / c
    return dW, dZ


def run_law(case, mon, rng):
    import jax
    d, h, N, K = case["d"], case["h"], case["N"], case["K"]
    keys = jax.random.split(jax.random.PRNGKey(int(rng.integers(2 ** 31))), K)
    dW, dZ = companions(keys, d, h, N)
    Z = np.concatenate([dW / np.sqrt(h), (dZ - h / 2 * dW) / np.sqrt(h ** 3 / 12)], axis=2)
    stats.standard_normal(mon, "noise-pair-law", Z)
    stats.step_means(mon, "noise-pair-law", Z)
    mon.ev(dW[0])
    mon.sample(dict(d=d, h=h, N=N, K=K, var_dW=float((dW ** 2).mean() / h), var_dZ=float((dZ ** 2).mean() / h ** 3 * 3), cov=float((dW * dZ).mean() / h ** 2 * 2)))


def family(case, rng, K):
    """-> batched params, jnp functions (drift, sigma), numpy (f, J, lapl(f, s), s, s1, s2)"""
    d, fam = case["d"], case["fam"]
    if fam in ("sin", "additive"):
        fps, sps = [], []
        for _ in range(K):
            fps.append(F.draw_drift(rng, d, "autonomous"))
            s = F.draw_diffusion(rng, d, d, "diagown" if fam == "sin" else "const")
            if fam == "additive":
                s["S0"] = np.diag(np.diag(s["S0"]))
                s["S1"] = 0 * s["S1"]
            s["v"] = 0 * s["v"]
            fps[-1] = fps[-1]
            sps.append(s)
        if K > 2 and d > 1:  # degenerate entries
            sps[1]["S0"][0, 0] = 0
            sps[1]["S1"][0] = 0
        p = dict(f=F.stack(fps), s=F.stack(sps))
        fj = lambda xp, p, x: F.drift(xp, p["f"], x, 0.0)
        sj = lambda xp, p, x: F.sigma(xp, p["s"], x, 0.0)

        def parts(p, x):
            H = F.drift_hess(p["f"], x, 0.0)
            s = np.diag(F.sigma(np, p["s"], x, 0.0))
            i = np.arange(d)
            s1 = F.sigma_jac(p["s"], x, 0.0)[i, i, i]
            s2 = F.sigma_hess(p["s"], x, 0.0)[i, i, i, i]
            return F.drift(np, p["f"], x, 0.0), F.drift_jac(p["f"], x, 0.0), np.einsum("ijj->ij", H), s, s1, s2
    else:
        lin = fam == "gbm"
        n = lambda *s: rng.normal(size=s)
        z = 0.0 if lin else 1.0
        p = dict(A=n(K, d, d) * .6, B=z * n(K, d, d) * .3, c=z * n(K, d), al=z * n(K, d), be=n(K, d) * .8, ga=z * n(K, d) * .3)
        fj = lambda xp, p, x: p["A"] @ x + p["B"] @ (x * x) * 0.5 + p["c"] + 0.1 * z * x[0] * x
        sj = lambda xp, p, x: xp.diag(p["al"] + p["be"] * x + p["ga"] * x * x)

        def parts(p, x):
            J = p["A"] + p["B"] * x + 0.1 * z * (x[0] * np.eye(d))
            J[:, 0] += 0.1 * z * x
            L = p["B"].copy()  # d_jj f_i
            L[0, 0] += 0.2 * z
            return fj(np, p, x), J, L, p["al"] + p["be"] * x + p["ga"] * x * x, p["be"] + 2 * p["ga"] * x, 2 * p["ga"]
    return p, fj, sj, parts


def run_step(case, mon, rng):
    import jax
    import jax.numpy as jnp
    from bayesian_sde_solver.sde_solvers import diag_15_scheme
    d, h, N, K = case["d"], case["h"], case["N"], case["K"]
    p, fj, sj, parts = family(case, rng, K)
    if case["mode"] == "eager":
        K = 1
    ty = np.float64 if case["x64"] else np.float32
    p = jax.tree_util.tree_map(lambda a: a[:K].astype(ty), p)
    x0 = rng.normal(size=(K, d)).astype(ty)
    F.unusual(rng, x0, far=case.get("x64", True))
    keys = jax.random.split(jax.random.PRNGKey(int(rng.integers(2 ** 31))), K)
    go = lambda k, x, p: diag_15_scheme(k, x, lambda x: fj(jnp, p, x), lambda x: sj(jnp, p, x), h, N)
    if case["mode"] == "eager":
        ts, xs = (np.asarray(o)[None] for o in go(keys[0], jnp.asarray(x0[0]), jax.tree_util.tree_map(lambda a: a[0], p)))
    else:
        ts, xs = map(np.asarray, jax.jit(jax.vmap(go))(keys, x0, p))
    dW, dZ = companions(keys, d, h, N)
    rt = 1e-9 if case["x64"] else 3e-4
    for i in range(K):
        P = jax.tree_util.tree_map(lambda a: a[i].astype(float), p)
        mon.close("grid", ts[i], np.arange(N + 1) * h, rtol=1e-12 if case["x64"] else 1e-6, atol=(1e-12 if case["x64"] else 1e-6) * N * h)
        mon.true("shape", xs[i].shape == (N + 1, d), got=list(xs[i].shape))
        mon.equal("initial-row", xs[i][0], x0[i])
        X = xs[i].astype(float)
        for k in range(N):
            x, w, z = X[k], dW[i, k], dZ[i, k]
            if not np.all(np.abs(x) < 20):
                mon.count("skipped_blowup")
                break
            f, J, L, s, s1, s2 = parts(P, x)
            lap = L @ (s * s)
            terms = [x, h * f, h * h / 2 * (J @ f), h * h / 4 * lap, s * w, J @ (s * z), .5 * s * s1 * (w * w - h),
                     (f * s1 + .5 * s * s * s2) * (h * w - z), .5 * s * (s * s2 + s1 * s1) * (w * w / 3 - h) * w]
            want = sum(terms)
            mon.close("taylor-step", X[k + 1], want, scale=1 + sum(np.max(np.abs(t)) for t in terms), rtol=rt, atol=0, key=case["fam"])
            mon.count("steps")
            if case["fam"] != "additive":
                mon.count("multiplicative_steps")
        mon.ev(x0[i], X[-1], nontrivial=case["fam"] != "additive")
    mon.sample(dict(case={k: case[k] for k in ("d", "fam", "h", "N")}, x0=x0[0].tolist(), x1=xs[0, 1].tolist(), dW=dW[0, 0].tolist(), dZ=dZ[0, 0].tolist()))
