"""C07: keyed Euler-Maruyama."""
import numpy as np

from vlib import fields as F
from vlib import stats

RULE = ("a case is a batch of keyed runs; the increments are recovered exactly from an augmented state (extra coordinates whose drift is 0 and diffusion the identity), then the recursion is replayed in numpy, "
        "the increments recovered under different coefficients compared, and their law tested; non-trivial: state-dependent drift/diffusion")
REQUIRE = {"steps": 800, "draws": 300000, "noise_comparisons": 20, "explosions": 3}
ASSUMPTIONS = ["law decided statistically (z-score limit 7)"]


def cases(tier, rng):
    q = tier == "quick"
    out = []
    dims = [(2, 2), (1, 1), (3, 2), (2, 1), (1, 3), (2, 4)]
    for i in range(14 if q else 120):
        d, m = dims[i % 6]
        out.append(dict(kind="replay", d=d, m=m, h=[0.1, 0.01, 0.5, 1, 2e-3, 1.7][int(rng.integers(6))], N=[1, 5, 20, 60][i % 4], K=10,
                        fk=["gen", "time", "linear"][i % 3], sk=["gen", "time", "rankdef"][(i // 3) % 3], x64=bool(i % 4 != 3), mode="eager" if i % 7 == 6 else "jv"))
    for d, m, h, N in [(6, 5, .2, 40), (5, 9, .05, 130), (2, 2, 1e-6, 300), (2, 1, .03, 3000), (1, 8, .3, 70), (2, 2, 7.0, 10)]:
        out.append(dict(kind="replay", d=d, m=m, h=h, N=N, K=2, fk="gen" if h < 5 else "time", sk="gen" if h < 5 else "time", x64=True, mode="jv"))
    for m, h, N, K in [(9, .1, 50, 300), (1, .2, 6000, 20), (2, 1e-8, 40, 500), (2, 4.0, 50, 400), (1, 20, 30, 900), (3, 365.0, 20, 500), (1, 1e4, 4, 5000)]:
        out.append(dict(kind="law", m=m, h=h, N=N, K=K, x64=True))
    for i in range(6 if q else 30):
        m = [1, 2, 3, 5][i % 4]
        out.append(dict(kind="law", m=m, h=float(np.exp(rng.uniform(np.log(1e-5), np.log(30)))), N=[100, 1, 1000, 7][i % 4], K=[2000, 100000, 100, 15000][i % 4] // max(1, m // 2), x64=bool(i % 3 != 2)))
    out.append(dict(kind="explosion", x64=True))
    return out


def run(case, mon):
    if case["kind"] == "explosion":
        import jax
        import jax.numpy as jnp
        from bayesian_sde_solver.sde_solvers import euler_maruyama
        rng = np.random.default_rng(case["seed"])
        return F.explosion(mon, rng, lambda x, f, h, N: euler_maruyama(jax.random.PRNGKey(int(rng.integers(2 ** 31))), jnp.asarray(x), f, lambda x, t: jnp.zeros((2, 2)), h, N)[1])
    (run_law if case["kind"] == "law" else run_replay)(case, mon, np.random.default_rng(case["seed"]))


def run_law(case, mon, rng):
    import jax
    import jax.numpy as jnp
    from bayesian_sde_solver.sde_solvers import euler_maruyama
    m, h, N, K = case["m"], case["h"], case["N"], case["K"]
    keys = jax.random.split(jax.random.PRNGKey(int(rng.integers(2 ** 31))), K)
    go = lambda k: euler_maruyama(k, jnp.zeros(m), lambda x, t: 0 * x, lambda x, t: jnp.eye(m), h, N)
    ts, xs = jax.jit(jax.vmap(go))(keys)
    xs = np.asarray(xs).astype(float)
    dW = np.diff(xs, axis=1) / np.sqrt(h)
    stats.standard_normal(mon, "increment-law", dW, lags=(1, 2, 5))
    stats.step_means(mon, "increment-law", dW)
    mon.ev(xs[0], h)
    # quadratic covariation over the horizon
    mon.sample(dict(m=m, h=h, N=N, K=K, variance_over_h=float((dW ** 2).mean())))


def run_replay(case, mon, rng):
    import jax
    import jax.numpy as jnp
    from bayesian_sde_solver.sde_solvers import euler_maruyama, euler_maruyama_pathwise
    d, m, h, N, K = case["d"], case["m"], case["h"], case["N"], case["K"]
    K = 1 if case["mode"] == "eager" else K
    size = min(1.0, 0.7 / (h * 1.5))
    ty = np.float64 if case["x64"] else np.float32
    cst = lambda p: {k: v.astype(ty) for k, v in p.items()}
    fp = cst(F.stack([F.draw_drift(rng, d, case["fk"], size) for _ in range(K)]))
    sp = cst(F.stack([F.draw_diffusion(rng, d, m, case["sk"], size) for _ in range(K)]))
    x0 = rng.normal(size=(K, d)).astype(ty)
    F.unusual(rng, x0, far=case.get("x64", True))
    keys = jax.random.split(jax.random.PRNGKey(int(rng.integers(2 ** 31))), K)

    def plain(key, x, fp, sp):
        return euler_maruyama(key, x, lambda x, t: F.drift(jnp, fp, x, t), lambda x, t: F.sigma(jnp, sp, x, t), h, N)

    def aug(key, x, fp, sp):
        f = lambda z, t: jnp.concatenate([F.drift(jnp, fp, z[:d], t), jnp.zeros(m)])
        s = lambda z, t: jnp.concatenate([F.sigma(jnp, sp, z[:d], t), jnp.eye(m)])
        return euler_maruyama(key, jnp.concatenate([x, jnp.zeros(m)]), f, s, h, N)

    if case["mode"] == "eager":
        r = lambda g: tuple(np.asarray(o)[None] for o in g(keys[0], jnp.asarray(x0[0]), F.pick(fp, 0), F.pick(sp, 0)))
    else:
        r = lambda g: tuple(map(np.asarray, jax.jit(jax.vmap(g))(keys, x0, fp, sp)))
    ts, xs = r(plain)
    tsa, xa = r(aug)
    keep = x0.copy()
    ts2, xs2 = r(plain)
    mon.equal("repeat-bitwise", xs2, xs)
    mon.equal("initial-state-untouched", x0, keep)
    dW = np.diff(xa[:, :, d:].astype(float), axis=1)
    tol = dict(rtol=1e-9, atol=1e-11) if case["x64"] else dict(rtol=1e-3, atol=3e-4)
    f64 = lambda p: {k: v.astype(float) for k, v in p.items()}
    for i in range(K):
        P, S = f64(F.pick(fp, i)), f64(F.pick(sp, i))
        mon.close("grid", ts[i], np.arange(N + 1) * h, rtol=1e-12 if case["x64"] else 1e-6, atol=(1e-12 if case["x64"] else 1e-6) * N * h)
        mon.true("shape", xs[i].shape == (N + 1, d), got=list(xs[i].shape))
        mon.equal("initial-row", xs[i][0], x0[i])
        mon.close("noise-independent-of-coefficients", xa[i][:25, :d], xs[i][:25], scale="max", **tol)  # later rows: rounding may have grown
        x = x0[i].astype(float)
        X = xs[i].astype(float)
        one = np.stack([X[k] + h * F.drift(np, P, X[k], k * h) + F.sigma(np, S, X[k], k * h) @ dW[i, k] for k in range(N)])
        mon.close("one-step", X[1:], one, scale=1 + np.max(np.abs(one), axis=1, keepdims=True) + np.max(np.abs(X[:-1]), axis=1, keepdims=True), rtol=1e-10 if case["x64"] else 3e-4, atol=0)
        mon.count("steps", N)
        mon.count("noise_comparisons", N)
        mon.ev(x0[i], X[-1])
    # the pathwise scheme on the recovered increments gives the same path
    pw = euler_maruyama_pathwise(jnp.asarray(dW[0].astype(ty)), jnp.asarray(x0[0]), lambda x, t: F.drift(jnp, F.pick(fp, 0), x, t),
                                 lambda x, t: F.sigma(jnp, F.pick(sp, 0), x, t), h, N)
    mon.close("equals-pathwise", np.asarray(pw[1])[:25], xs[0][:25], scale="max", **tol)
    mon.sample(dict(case={k: case[k] for k in ("d", "m", "h", "N", "fk", "sk")}, x_end=xs[0, -1].tolist(), dW0=dW[0, 0].tolist()))
