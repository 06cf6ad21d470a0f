"""C04: coarse and fine Brownian data describe one path."""
import numpy as np

RULE = ("a case is one generator with fine data at one (dt, dim, resolution) and n keys; every draw's coarse coefficients are recomputed from its fine data; "
        "non-trivial: fine data not identically zero")
REQUIRE = {"draws_checked": 2000, "glued_points": 2000}
ASSUMPTIONS = []
R6 = np.sqrt(6.0)


def cases(tier, rng):
    q = tier == "quick"
    out = []
    ress = [1, 2, 3, 7, 10, 50, 100, 333, 1000, 1001]
    for rep in range(1 if q else 6):
        for i, res in enumerate(ress):
            for gen in ("fine", "brownian"):
                out.append(dict(gen=gen, res=res if rep == 0 else int(res + rng.integers(0, 40)), dim=[1, 2, 3, 4][(i + rep) % 4], n=150 if res < 300 else 60, x64=bool((i + rep) % 3 != 2),
                                dt=float(np.exp(rng.uniform(np.log(1e-5), np.log(50)))), default=bool(i % 5 == 4 and res in (100, 1000))))
    for i, (res, dim, dt) in enumerate([(4099, 1, 1e-9), (257, 9, 3e-12), (1025, 6, 2e3), (2, 12, .1), (5000, 2, 1.)]):
        for gen in ("fine", "brownian"):
            out.append(dict(gen=gen, res=res, dim=dim, n=12, x64=bool((i + (gen == "fine")) % 3), dt=dt, default=False))
    out.append(dict(gen="fine", res=100, dim=1, n=40, x64=True, dt=0.3, default=True))
    out.append(dict(gen="brownian", res=1000, dim=1, n=40, x64=True, dt=0.3, default=True))
    return out


def run(case, mon):
    import jax
    import jax.numpy as jnp
    from bayesian_sde_solver.foster_polynomial import get_approx, get_approx_and_brownian, get_approx_fine
    rng = np.random.default_rng(case["seed"])
    gen, N, dim, n, dt = case["gen"], case["res"], case["dim"], case["n"], case["dt"]
    mk = get_approx_fine if gen == "fine" else get_approx_and_brownian
    if case["default"]:
        dim = 1
        N = 100 if gen == "fine" else 1000
        get, ev = mk()
    else:
        get, ev = mk(dim=dim, N=N)
    keys = jax.random.split(jax.random.PRNGKey(int(rng.integers(2 ** 31))), n)
    out = [np.asarray(o) for o in jax.jit(jax.vmap(lambda k: get(k, dt)))(keys)]
    one = [np.asarray(o) for o in get(keys[1], dt)]
    rt = 1e-10 if case["x64"] else 2e-5 * np.sqrt(N) + 1e-5
    for o, w in zip(one, out):
        mon.close("single-equals-batched", o, w[1], rtol=rt, atol=rt * np.sqrt(dt))
    a, b = out[0].astype(float), out[1].astype(float)
    sd = np.sqrt(dt)
    if gen == "fine":
        fa, fc = out[2].astype(float), out[3].astype(float)
        mon.true("fine-shape", fa.shape == (n, N, dim) and fc.shape == (n, N, dim), got=[list(fa.shape), list(fc.shape)])
        start = np.concatenate([np.zeros((n, 1, dim)), np.cumsum(fa, axis=1)], axis=1)
        mon.close("increment-is-sum", a, start[:, -1], rtol=0, atol=rt * sd)
        # mean of the glued fine parabolas: piece i is start_i + fa_i u + 6 fc_i u(1-u)
        mean = (start[:, :-1] + fa / 2 + fc).mean(axis=1)
        mon.close("second-coefficient-is-path-mean", b, R6 * (mean - a / 2), rtol=0, atol=10 * rt * sd)
        # the fine polynomial (second coefficient sqrt(6) fc) has that mean: observe the code's own polynomial
        _, pe = get_approx(dim=dim)
        K = min(n, 20)
        u = np.array([0, .5, 1.0])
        V = np.asarray(pe(jnp.asarray(u * dt / N)[None, None, :, None], dt / N, jnp.asarray(out[2][:K])[:, :, None, :], jnp.asarray(out[3][:K])[:, :, None, :] * R6)).astype(float)
        glued = start[:K, :-1, None] + V
        mon.close("glued-path-continuous", glued[:, 1:, 0], glued[:, :-1, 2], rtol=0, atol=rt * sd)
        integ = ((glued[:, :, 0] + 4 * glued[:, :, 1] + glued[:, :, 2]) / 6).mean(axis=1)
        mon.close("coarse-parabola-has-path-mean", a[:K] / 2 + b[:K] / R6, integ, rtol=0, atol=10 * rt * sd)
        mon.count("glued_points", K * N * dim)
        extra = (out[2][0], out[3][0])
    else:
        inc = out[2].astype(float)
        mon.true("fine-shape", inc.shape == (n, N, dim), got=list(inc.shape))
        path = np.concatenate([np.zeros((n, 1, dim)), np.cumsum(inc, axis=1)], axis=1) * np.sqrt(dt / N)
        mon.close("increment-is-sum", a, path[:, -1], rtol=0, atol=rt * sd)
        mean = ((path[:, 1:] + path[:, :-1]) / 2).mean(axis=1)
        mon.close("second-coefficient-is-path-mean", b, R6 * (mean - a / 2), rtol=0, atol=10 * rt * sd)
        mon.count("glued_points", n * N * dim)
        extra = (out[2][0],)
    # the generator's own polynomial evaluates the coarse pair, whatever the fine data
    u = np.array([0, .25, .5, 1.0])
    for j in range(3):
        v = np.asarray(ev(jnp.asarray(u * dt)[:, None], dt, jnp.asarray(out[0][j])[None], jnp.asarray(out[1][j])[None], *extra)).astype(float)
        mon.close("coarse-polynomial", v, a[j] * u[:, None] + R6 * b[j] * (u * (1 - u))[:, None], rtol=0, atol=rt * sd)
    mon.count("draws_checked", n)
    for i in range(n):
        mon.ev(a[i], b[i], nontrivial=bool(np.any(a[i])))
    mon.sample(dict(gen=gen, N=N, dim=dim, dt=dt, a=a[0].tolist(), b=b[0].tolist()))
