"""C09: conditional law of the hypoelliptic 1.5 scheme."""
import numpy as np

from vlib import fields as F
from vlib import stats

RULE = ("a case is a batch of runs; exact cases compare the step to mean + noise, the noise being recovered from a companion run with the same key and the same conditional covariance; "
        "whitening cases standardise every recorded transition by the conditional law; non-trivial: non-linear drift, state-dependent noise")
REQUIRE = {"exact_steps": 300, "draws": 100000, "transitions": 40000}
ASSUMPTIONS = ["law decided statistically (z-score limit 7)", "non-degenerate rough noise reaching the smooth coordinate"]


def cases(tier, rng):
    q = tier == "quick"
    out = []
    for i in range(8 if q else 60):
        out.append(dict(kind="one", d=[2, 3, 4, 2][i % 4], m=[2, 3, 4, 1][i % 4] + int(i // 4 % 2), h=[0.1, 0.5, 0.02, 0.3][int(rng.integers(4))], K=40, x64=True, mode="jv", cost=2))
    for i in range(6 if q else 40):
        out.append(dict(kind="multi", d=[2, 3, 4][i % 3], h=[0.1, 0.4, 0.05][int(rng.integers(3))], N=[3, 12][i % 2], K=12, x64=True, cost=2))
    for d, m, h in [(5, 5, .2), (7, 6, .1), (6, 8, .4), (4, 4, 2.0), (3, 3, 1e-3), (4, 3, 1e-4), (2, 2, 6.0), (3, 2, 40.0), (2, 1, 1e-6)]:
        out.append(dict(kind="one", d=d, m=m, h=h, K=10, x64=True, mode="jv", cost=2))
    for d, m, h, sc in [(2, 2, 1e-2, 1e-3), (3, 3, .1, 1e-4), (3, 4, 1e-3, 3e-3), (2, 1, .3, 1e3), (4, 4, 1e-2, 50.)]:
        out.append(dict(kind="one", d=d, m=m, h=h, K=12, x64=True, mode="jv", sc=sc, cost=2))
    for d, h, sc in [(2, 1e-2, 1e-3), (3, 1e-3, 1e-2), (2, .1, 100.)]:
        out.append(dict(kind="whiten", d=d, h=h, N=5, K=3000, x64=True, sc=sc, cost=2))
    for d, h, N in [(6, .1, 5), (3, .05, 150), (2, .01, 1500)]:
        out.append(dict(kind="multi", d=d, h=h, N=N, K=4 if N < 1000 else 1, x64=True, cost=2))
    out.append(dict(kind="whiten", d=6, h=.2, N=5, K=3000, x64=True, cost=2))
    out.append(dict(kind="whiten", d=2, h=.02, N=4000, K=5, x64=True, cost=2))
    out.append(dict(kind="one", d=2, m=2, h=0.5, K=20, x64=False, mode="jv"))
    out.append(dict(kind="one", d=3, m=3, h=0.5, K=1, x64=True, mode="eager"))
    for i in range(6 if q else 36):
        out.append(dict(kind="whiten", d=[2, 3, 2, 4][i % 4], h=[0.5, 0.1, 1.0, 0.3, 0.01][i % 5], N=[20, 5, 1][i % 3], K=[1500, 4000, 20000][i % 3], x64=bool(i % 5 != 4), cost=2))
    return out


def draw(rng, d, m, state_dep=True, sc=1.0):
    f = F.draw_drift(rng, d, "autonomous")
    s = F.draw_diffusion(rng, d, m, "hypo")
    s["v"] = 0 * s["v"]
    s["S1"] *= 0.5
    if m >= d:
        s["S0"][1:, 1:d] += 1.5 * np.eye(d - 1)
    else:
        s["S0"][1:, :] += 1.5 * np.eye(d - 1, m)
    f["A"][0, 1:] += 1.5 * np.sign(f["A"][0, 1:])
    if not state_dep:
        s["S1"] = 0 * s["S1"]
    s["S0"], s["S1"] = sc * s["S0"], sc * s["S1"]
    return f, s


def moments(P, S, x, h):
    f, J, H = F.drift(np, P, x, 0.), F.drift_jac(P, x, 0.), F.drift_hess(P, x, 0.)
    s = F.sigma(np, S, x, 0.)
    G = s[1:] @ s[1:].T
    a = J[0, 1:]
    mean = x + h * f + h * h / 2 * J @ f + h * h / 4 * np.einsum("ijk,jk->i", H, s @ s.T)
    return mean, a, G


def run(case, mon):
    globals()["run_" + case["kind"]](case, mon, np.random.default_rng(case["seed"]))


def cast(ty, *trees):
    return [{k: np.asarray(v).astype(ty) for k, v in t.items()} for t in trees]


def run_one(case, mon, rng):
    """one step from many states; companion: linear smooth drift a.x_R, constant noise Gamma(x0), same key"""
    import jax
    import jax.numpy as jnp
    from bayesian_sde_solver.sde_solvers import hypoelliptic_diffusion_15_scheme as hyp
    d, m, h, K = case["d"], max(case["m"], case["d"] - 1), case["h"], case["K"]
    ty = np.float64 if case["x64"] else np.float32
    ps = [draw(rng, d, m, sc=case.get("sc", 1.0)) for _ in range(K)]
    fp, sp = cast(ty, F.stack([p[0] for p in ps]), F.stack([p[1] for p in ps]))
    x0 = rng.normal(size=(K, d)).astype(ty)
    F.unusual(rng, x0, far=case["x64"])
    keys = jax.random.split(jax.random.PRNGKey(int(rng.integers(2 ** 31))), K)
    A = np.zeros((K, d, d))
    S = np.zeros((K, d, m))
    means, G0 = [], []
    for i in range(K):
        P, Q = cast(float, F.pick(fp, i), F.pick(sp, i))
        mean, a, G = moments(P, Q, x0[i].astype(float), h)
        A[i, 0, 1:] = a
        S[i] = F.sigma(np, Q, x0[i].astype(float), 0.)
        means.append(mean)
        G0.append(G)
    A, S = A.astype(ty), S.astype(ty)
    go = lambda k, x, fp, sp: hyp(k, x, lambda x: F.drift(jnp, fp, x, 0.), lambda x: F.sigma(jnp, sp, x, 0.), h, 1)
    co = lambda k, x, A, S: hyp(k, x, lambda x: A @ x, lambda x: S, h, 1)[1]
    if case["mode"] == "eager":
        ts, xs = (np.asarray(o)[None] for o in go(keys[0], jnp.asarray(x0[0]), F.pick(fp, 0), F.pick(sp, 0)))
        ys = np.asarray(co(keys[0], jnp.asarray(x0[0]), jnp.asarray(A[0]), jnp.asarray(S[0])))[None]
    else:
        ts, xs = map(np.asarray, jax.jit(jax.vmap(go))(keys, x0, fp, sp))
        ys = np.asarray(jax.jit(jax.vmap(co))(keys, x0, A, S))
    W = []
    for i in range(K):
        mon.close("grid", ts[i], np.array([0, h]), rtol=1e-6, atol=0)
        mon.true("shape", xs[i].shape == (2, d), got=list(xs[i].shape))
        mon.equal("initial-row", xs[i][0], x0[i])
        noise = ys[i, 1].astype(float) - x0[i] - h * A[i].astype(float) @ x0[i]
        want = means[i] + noise
        mon.close("step-mean", xs[i, 1], want, scale=1 + np.max(np.abs(want)) + np.max(np.abs(noise)), rtol=1e-9 if case["x64"] else 3e-4, atol=0)
        mon.count("exact_steps")
        L = np.linalg.cholesky(G0[i] * h)
        a = A[i, 0, 1:].astype(float)
        w = np.linalg.solve(L, noise[1:])
        W.append(np.concatenate([[(noise[0] - h / 2 * a @ noise[1:]) / np.sqrt(h ** 3 / 12 * a @ G0[i] @ a)], w]))
        mon.ev(x0[i], xs[i, 1])
    W = np.stack(W)
    mon.bound("noise-size", np.abs(W), 8.0)
    mon.sample(dict(case={k: case[k] for k in ("d", "m", "h")}, x0=x0[0].tolist(), x1=xs[0, 1].tolist(), whitened=W[0].tolist()))


def run_multi(case, mon, rng):
    """several steps; smooth drift a.x_R + phi(x_S) and constant noise make the conditional covariance constant"""
    import jax
    import jax.numpy as jnp
    from bayesian_sde_solver.sde_solvers import hypoelliptic_diffusion_15_scheme as hyp
    d, h, N, K = case["d"], case["h"], case["N"], case["K"]
    ps = [draw(rng, d, d, state_dep=False) for _ in range(K)]
    for f, s in ps:
        f["B"][0] = 0
        f["A"][0, 0] *= .5
    fp, sp = F.stack([p[0] for p in ps]), F.stack([p[1] for p in ps])
    x0 = rng.normal(size=(K, d))
    F.unusual(rng, x0, far=False)
    keys = jax.random.split(jax.random.PRNGKey(int(rng.integers(2 ** 31))), K)
    A = np.zeros((K, d, d))
    A[:, 0, 1:] = fp["A"][:, 0, 1:]
    gam = rng.normal(size=K)
    f = lambda xp, p, g, x: F.drift(xp, p, x, 0.) + xp.where(xp.arange(d) == 0, g * xp.sin(x[0]), 0.)
    go = lambda k, x, fp, sp, g: hyp(k, x, lambda x: f(jnp, fp, g, x), lambda x: F.sigma(jnp, sp, x, 0.), h, N)
    co = lambda k, A, sp: hyp(k, jnp.zeros(d), lambda x: A @ x, lambda x: F.sigma(jnp, sp, x, 0.), h, N)[1]
    ts, xs = map(np.asarray, jax.jit(jax.vmap(go))(keys, x0, fp, sp, gam))
    ys = np.asarray(jax.jit(jax.vmap(co))(keys, A, sp))
    for i in range(K):
        P, S = F.pick(fp, i), F.pick(sp, i)
        mon.close("grid", ts[i], np.arange(N + 1) * h, rtol=1e-12, atol=1e-12)
        mon.true("shape", xs[i].shape == (N + 1, d), got=list(xs[i].shape))
        mon.equal("initial-row", xs[i][0], x0[i])
        ss = F.sigma(np, S, x0[i], 0.) @ F.sigma(np, S, x0[i], 0.).T
        e0 = np.eye(d)[0]
        for k in range(N):
            noise = ys[i, k + 1] - ys[i, k] - h * A[i] @ ys[i, k]
            x = xs[i, k]
            if np.max(np.abs(x)) > 50:
                break
            fv = f(np, P, gam[i], x)
            J = F.drift_jac(P, x, 0.) + gam[i] * np.cos(x[0]) * np.outer(e0, e0)
            H = F.drift_hess(P, x, 0.)
            want = x + h * fv + h * h / 2 * J @ fv + h * h / 4 * np.einsum("ijk,jk->i", H, ss) + noise
            mon.close("step-mean", xs[i, k + 1], want, scale=1 + np.max(np.abs(want)) + np.max(np.abs(x)), rtol=1e-9, atol=0)
            mon.count("exact_steps")
        mon.ev(x0[i], xs[i, -1])
    mon.sample(dict(case={k: case[k] for k in ("d", "h", "N")}, x_end=xs[0, -1].tolist()))


def run_whiten(case, mon, rng):
    import jax
    import jax.numpy as jnp
    from bayesian_sde_solver.sde_solvers import hypoelliptic_diffusion_15_scheme as hyp
    d, h, N, K = case["d"], case["h"], case["N"], case["K"]
    ty = np.float64 if case["x64"] else np.float32
    sc = case.get("sc", 1.0)
    P, S = draw(rng, d, d, sc=sc)
    for k in "AB":
        P[k] *= min(1.0, .5 / h)
    P["A"][0, 1:] += 1.0 * np.sign(P["A"][0, 1:])
    P["A"] -= np.diag([.5] * d)
    P, S = cast(ty, P, S)
    x0 = (rng.normal(size=(K, d)) * .7).astype(ty)
    keys = jax.random.split(jax.random.PRNGKey(int(rng.integers(2 ** 31))), K)
    ts, xs = map(np.asarray, jax.jit(jax.vmap(lambda k, x: hyp(k, x, lambda x: F.drift(jnp, P, x, 0.), lambda x: F.sigma(jnp, S, x, 0.), h, N)))(keys, x0))
    X = xs.astype(float)
    P, S = cast(float, P, S)
    # vectorised oracle over all transitions
    x = X[:, :-1].reshape(-1, d)
    arg = x @ P["C"].T + P["p"]
    f = x @ P["A"].T + np.sin(arg) @ P["B"].T
    J = P["A"] + np.einsum("il,nl,lj->nij", P["B"], np.cos(arg), P["C"])
    H = -np.einsum("il,nl,lj,lk->nijk", P["B"], np.sin(arg), P["C"], P["C"])
    s = S["S0"] + np.einsum("iml,nl->nim", S["S1"], np.sin(x @ S["E"].T + S["q"]))
    ss = np.einsum("nim,njm->nij", s, s)
    Jf = np.einsum("nij,nj->ni", J, f)
    lap = np.einsum("nijk,njk->ni", H, ss)
    r = X[:, 1:].reshape(-1, d) - (x + h * f + h * h / 2 * Jf + h * h / 4 * lap)
    G = ss[:, 1:, 1:]
    a = J[:, 0, 1:]
    aGa = np.einsum("ni,nij,nj->n", a, G, a)
    L = np.linalg.cholesky(G * h)
    w = np.linalg.solve(L, r[:, 1:, None])[:, :, 0]
    w0 = (r[:, 0] - h / 2 * np.einsum("ni,ni->n", a, r[:, 1:])) / np.sqrt(h ** 3 / 12 * aGa)
    # transitions whose conditional covariance is too close to singular for the working precision are not judged
    ok = (aGa > 1e-4 * sc ** 2) & (np.min(np.linalg.eigvalsh(G), axis=1) > 1e-4 * sc ** 2) & np.all(np.abs(x) < 30, axis=1)
    if not case["x64"]:
        ok &= h ** 1.5 * np.sqrt(aGa / 12) > 3e-4 * (1 + np.abs(x).max(axis=1))
    mon.count("transitions", ok.sum())
    mon.count("transitions_skipped", (~ok).sum())
    Z = np.concatenate([w0[:, None], w], axis=1)
    mon.finite("finite", Z)
    if case["x64"] and ok.all():
        stats.standard_normal(mon, "whitened", Z.reshape(K, N, d), lags=(1, 2))
    else:
        stats.standard_normal(mon, "whitened", Z[ok][None], lags=())
    # martingale differences: uncorrelated with anything known before the step, in mean and in square
    def std(v):
        sd = v.std(axis=0)
        return (v - v.mean(axis=0)) / np.where(sd > 1e-12, sd, 1.0)
    R = std(np.concatenate([x, f, Jf, lap], axis=1)[ok])
    R = np.clip(R, -4, 4)
    Q = std(np.concatenate([aGa[:, None], np.trace(G, axis1=1, axis2=2)[:, None], x ** 2, a, np.einsum("nij,nj->ni", G, a)], axis=1)[ok])
    Q = np.clip(Q, -4, 4)
    Zo = Z[ok]
    n = len(Zo)
    zr = np.sqrt(n) * (R[:, :, None] * Zo[:, None, :]).mean(axis=0) / np.sqrt((R ** 2).mean(axis=0) + 1e-12)[:, None]
    mon.bound("residual-uncorrelated-with-past", np.abs(zr), stats.LIMIT)
    zq = np.sqrt(n / 2) * (Q[:, :, None] * (Zo[:, None, :] ** 2 - 1)).mean(axis=0) / np.sqrt((Q ** 2).mean(axis=0) + 1e-12)[:, None]
    mon.bound("squared-residual-uncorrelated-with-past", np.abs(zq), stats.LIMIT + 2)
    mon.ev(X[0], n=int(ok.sum()))
    for i in range(min(K, 50)):
        mon.ev(X[i])
    mon.sample(dict(case={k: case[k] for k in ("d", "h", "N", "K")}, transitions=int(ok.sum()), whitened_variance=(Zo ** 2).mean(axis=0).tolist()))
