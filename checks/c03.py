"""C03: law and shape of the Brownian parabolas."""
import numpy as np

from vlib import stats

RULE = ("a case is one generator at one (dt, dim, resolution) with n keys, or one batch of polynomial evaluations at random (t, dt, a, b) in several broadcast shapes; "
        "non-trivial: non-degenerate coefficients")
REQUIRE = {"draws": 200000, "poly_points": 3000, "derivative_points": 200, "integral_points": 50}
ASSUMPTIONS = ["laws are decided statistically over the recorded draws (z-score limit 7)"]
R6 = np.sqrt(6.0)


def cases(tier, rng):
    out = []
    dts = [1.0, 1e-3, 1e-6, 0.37, 25.0, 1e3, 0.02, 3e-9, 1e-12]
    q = tier == "quick"
    k = 0
    for rep in range(1 if q else 8):
        for gen in ("get_approx", "fine", "brownian"):
            for dim in (1, 2, 3, 5, 9):
                res = [1, 2, 5, 16, 60][k % 5]
                out.append(dict(kind="law", gen=gen, dim=dim, res=res, dt=float(dts[k % len(dts)] * rng.uniform(.5, 2)), n=200000 if gen == "get_approx" else (60000 if res < 10 else 20000), x64=bool(k % 4 != 3)))
                k += 1
    for rep in range(3 if q else 24):
        out.append(dict(kind="poly", gen=["get_approx", "fine", "brownian"][rep % 3], x64=bool(rep % 2 == 0 or q), n=1300))
    return out


def make(name, dim, res):
    from bayesian_sde_solver.foster_polynomial import get_approx, get_approx_and_brownian, get_approx_fine
    return {"get_approx": lambda: get_approx(dim=dim), "fine": lambda: get_approx_fine(dim=dim, N=res),
            "brownian": lambda: get_approx_and_brownian(dim=dim, N=res)}[name]()


def run(case, mon):
    rng = np.random.default_rng(case["seed"])
    (run_law if case["kind"] == "law" else run_poly)(case, mon, rng)


def run_law(case, mon, rng):
    import jax
    import jax.numpy as jnp
    from bayesian_sde_solver.foster_polynomial import get_approx
    gen, dim, res, dt, n = case["gen"], case["dim"], case["res"], case["dt"], case["n"]
    get, ev = make(gen, dim, res)
    keys = jax.random.split(jax.random.PRNGKey(int(rng.integers(2 ** 31))), n)
    if gen == "get_approx":
        a, b = map(np.asarray, get(keys, dt))  # the generator batches over keys by itself
        fine = ()
    else:
        a, b, *fine = map(np.asarray, jax.jit(jax.vmap(lambda k: get(k, dt)))(keys))
    mon.true("coefficient-shape", a.shape == (n, dim) and b.shape == (n, dim), got=[list(a.shape), list(b.shape)])
    mon.true("coefficient-dtype", a.dtype == b.dtype == (np.float64 if case["x64"] else np.float32), got=str(a.dtype))
    vb = dt / 2
    if gen == "brownian":
        w = np.array([(res - i + 0.5) / res - 0.5 for i in range(1, res + 1)]) * R6 * np.sqrt(dt / res)
        vb = float(np.sum(w ** 2))
        # the discretised functional tends to dt/2: sum w^2 = dt/2 (1 - 1/N^2)... evaluated exactly here
    if vb > 1e-9 * dt:
        Z = np.stack([a.astype(float) / np.sqrt(dt), b.astype(float) / np.sqrt(vb)], axis=1)  # n, 2, dim
        Z = Z.reshape(1, n, 2 * dim)
        stats.standard_normal(mon, "law", Z, key=gen, lags=(1, 2))
    else:
        stats.standard_normal(mon, "law", (a.astype(float) / np.sqrt(dt))[None], key=gen, lags=(1, 2))
        mon.close("degenerate-second-coefficient", b, 0 * b, atol=1e-5 * np.sqrt(dt), rtol=0)
    if gen == "fine":
        f0 = fine[0].astype(float) / np.sqrt(dt / res)
        f1 = fine[1].astype(float) / np.sqrt(dt / res / 12)
        stats.standard_normal(mon, "fine-law", np.concatenate([f0, f1], axis=2), key=gen, lags=(1, 2, 3))
    if gen == "brownian":
        stats.standard_normal(mon, "increment-law", fine[0].astype(float), key=gen, lags=(1, 2, 3))
    mon.ev(a, n=1)
    # scaling: same key, other step length -> same standardised coefficients
    dt2 = dt * 7.3
    o = get(keys[0], dt2)
    tol = 1e-10 if case["x64"] else 1e-4
    mon.close("brownian-scaling", np.asarray(o[0]) / np.sqrt(dt2), a[0] / np.sqrt(dt), rtol=tol, atol=tol)
    mon.close("brownian-scaling", np.asarray(o[1]) / np.sqrt(dt2), b[0] / np.sqrt(dt), rtol=tol, atol=tol)
    mon.sample(dict(gen=gen, dim=dim, dt=dt, var_a=float(a.var() / dt), var_b=float(b.var() / dt)))


def run_poly(case, mon, rng):
    import jax
    import jax.numpy as jnp
    n = case["n"]
    dt_ = np.float64 if case["x64"] else np.float32
    tol = dict(rtol=1e-11, atol=0) if case["x64"] else dict(rtol=2e-5, atol=0)
    gen = case["gen"]
    dt = np.exp(rng.uniform(np.log(1e-6), np.log(1e3), size=n))
    u = rng.uniform(0, 1, size=n)
    u[:40] = 0
    u[40:80] = 1
    u[80:120] = rng.uniform(-1, 3, size=40)  # polynomials extend beyond the interval
    a, b = rng.normal(size=n) * np.sqrt(dt), rng.normal(size=n) * np.sqrt(dt / 2)
    t = u * dt
    t, dt, a, b = (v.astype(dt_) for v in (t, dt, a, b))
    uu = t.astype(float) / dt
    want = a * uu + R6 * b * uu * (1 - uu)
    sc = np.abs(a) * np.abs(uu) + R6 * np.abs(b) * np.abs(uu) * (1 + np.abs(uu)) + 1e-300
    slope = a / dt.astype(float) + R6 * b * (1 - 2 * uu) / dt
    ssc = (np.abs(a) + R6 * np.abs(b) * (1 + 2 * np.abs(uu))) / dt.astype(float)
    dim = 3
    get, ev = make(gen, dim, 4)
    extra = {"get_approx": (), "fine": (None, None), "brownian": (None,)}[gen]
    E = lambda t, dt, a, b: ev(t, dt, a, b, *extra)
    got = E(jnp.asarray(t), jnp.asarray(dt), jnp.asarray(a), jnp.asarray(b))
    mon.close("polynomial", got, want, scale=sc, **tol)
    mon.count("poly_points", n)
    mon.ev(t, a, b)
    # values at the ends
    mon.equal("starts-at-zero", np.asarray(got)[:40], np.zeros(40, dt_))
    mon.close("ends-at-increment", np.asarray(got)[40:80], a[40:80], **(dict(rtol=1e-13) if case["x64"] else dict(rtol=1e-6)))
    # scalar time, vector coefficients (the way the driver calls it), and a grid of times against a batch of coefficients
    m = n // dim
    A, B = a[:m * dim].reshape(m, dim), b[:m * dim].reshape(m, dim)
    for i in rng.integers(0, m, size=6):
        f = lambda s: E(s, float(dt[i]), jnp.asarray(A[i]), jnp.asarray(B[i]))
        ui = t[i].astype(float) / float(dt[i])
        v = np.asarray(f(jnp.asarray(t[i])))
        mon.close("polynomial", v, A[i] * ui + R6 * B[i] * ui * (1 - ui), scale=np.abs(A[i] * ui) + 3 * np.abs(B[i] * ui) * (1 + abs(ui)) + 1e-300, **tol)
        jv = np.asarray(jax.jacfwd(f)(jnp.asarray(t[i])))
        w = A[i] / float(dt[i]) + R6 * B[i] * (1 - 2 * ui) / float(dt[i])
        mon.close("derivative", jv, w, scale=(np.abs(A[i]) + 3 * np.abs(B[i]) * (1 + 2 * abs(ui))) / float(dt[i]), **tol)
        mon.count("derivative_points", dim)
        mon.ev(A[i], B[i], t[i])
    g = np.asarray(jax.vmap(jax.grad(lambda s, d, x, y: E(s, d, x, y)))(jnp.asarray(t), jnp.asarray(dt), jnp.asarray(a), jnp.asarray(b)))
    mon.close("derivative", g, slope, scale=ssc, **tol)
    mon.count("derivative_points", n)
    # outer broadcasting and time integral (Simpson is exact for parabolas)
    s = np.linspace(0, 1, 3).astype(dt_)
    T = s[None, :] * dt[:20, None]
    V = np.asarray(E(jnp.asarray(T)[:, :, None], jnp.asarray(dt[:20])[:, None, None], jnp.asarray(A[:20])[:, None, :], jnp.asarray(B[:20])[:, None, :])).astype(float)
    mon.true("broadcast-shape", V.shape == (20, 3, dim), got=list(V.shape))
    if V.shape == (20, 3, dim):
        integ = (V[:, 0] + 4 * V[:, 1] + V[:, 2]) / 6
        mon.close("time-integral", integ, A[:20] / 2 + B[:20] / R6, scale=np.abs(A[:20]) + np.abs(B[:20]), **tol)
        mon.count("integral_points", 20 * dim)
    mon.sample(dict(t=float(t[130]), dt=float(dt[130]), a=float(a[130]), b=float(b[130]), value=float(np.asarray(got)[130])))
