"""C10: explicit Euler for ODEs."""
import numpy as np

from vlib import fields as F

RULE = "a case is a batch of Euler solves (random time-dependent fields, h possibly negative, N) replayed in numpy, plus recorded evaluation times; non-trivial: state- and time-dependent field"
REQUIRE = {"steps": 3000, "constant_fields": 10, "evaluation_sites": 20, "explosions": 3}
ASSUMPTIONS = []


def cases(tier, rng):
    out = []
    for i in range(24 if tier == "quick" else 260):
        out.append(dict(d=[1, 2, 3, 5][i % 4], fk=["gen", "time", "linear", "autonomous", "const", "gen"][i % 6], h=[0.1, 0.01, 0.5, -0.2, 1, 3e-4, -1.3, 1.0][int(rng.integers(8))],
                        N=int([1, 2, 3, 10, 45, 200][rng.integers(6)]), K=12, x64=bool(i % 4 != 3), mode=["jv", "eager"][int(i % 5 == 4)]))
    for d, fk, h, N in [(8, "gen", .05, 30), (12, "gen", -.02, 50), (2, "gen", -.03, 300), (2, "gen", 1e-9, 40), (2, "time", 25.0, 7), (3, "time", -4.0, 9), (1, "gen", .07, 1111), (2, "gen", -2e-3, 2500)]:
        out.append(dict(d=d, fk=fk, h=h, N=N, K=3, x64=True, mode="jv"))
    out.append(dict(d=2, fk="gen", h=1e-3, N=5000, K=1, x64=True, mode="jv"))
    out.append(dict(kind="explosion", x64=True))
    return out


def run(case, mon):
    import jax
    import jax.numpy as jnp
    from bayesian_sde_solver.ode_solvers import euler
    rng = np.random.default_rng(case["seed"])
    if case.get("kind") == "explosion":
        return F.explosion(mon, rng, lambda x, f, h, N: euler(jnp.asarray(x), f, h, N), last_only=True)
    d, h, N, K = case["d"], case["h"], case["N"], case["K"]
    K = 1 if case["mode"] == "eager" else K
    ty = np.float64 if case["x64"] else np.float32
    size = min(1.0, 1.5 / (abs(h) * N), 0.7 / abs(h))
    fp = {k: v.astype(ty) for k, v in F.stack([F.draw_drift(rng, d, case["fk"], size) for _ in range(K)]).items()}
    x0 = rng.normal(size=(K, d)).astype(ty)
    F.unusual(rng, x0, far=case.get("x64", True))
    keep = x0.copy()
    go = lambda x, fp: euler(x, lambda x, t: F.drift(jnp, fp, x, t), h, N)
    gokw = lambda x, fp: euler(init=x, vector_field=lambda x, t: F.drift(jnp, fp, x, t), h=h, N=N)
    # evaluation sites: integrate the monitor itself: s1' = t, s2' = t^2, s3' = 1, c' = exp-like weights make the sum of sites unique
    site = lambda x: euler(x, lambda z, t: jnp.stack([t, t ** 2, jnp.ones_like(t), jnp.cos(3 * t)]), h, N)
    if case["mode"] == "eager":
        y = np.asarray(gokw(x0[0], F.pick(fp, 0)))[None]
    else:
        y = np.asarray(jax.jit(jax.vmap(go))(x0, fp))
    mon.equal("initial-state-untouched", x0, keep)
    tol = dict(rtol=1e-9, atol=1e-10) if case["x64"] else dict(rtol=2e-3, atol=2e-3)
    mon.true("shape", y.shape == x0.shape, got=list(y.shape))
    mon.true("dtype", y.dtype == ty, got=str(y.dtype))
    for i in range(K):
        P = {k: v.astype(float) for k, v in F.pick(fp, i).items()}
        z = x0[i].astype(float)
        for k in range(N):
            z = z + h * F.drift(np, P, z, k * h)
        mon.close("recursion", y[i], z, scale=1 + np.max(np.abs(z)), **tol)
        if case["fk"] == "const":
            mon.close("exact-on-constant-fields", y[i], x0[i] + N * h * F.drift(np, P, x0[i].astype(float), 0.0), scale=1 + np.max(np.abs(z)), **tol)
            mon.count("constant_fields")
        mon.count("steps", N)
        mon.ev(x0[i], P["A"], h, N, nontrivial=case["fk"] in ("gen", "autonomous"))
    t = np.arange(N) * h
    w = h * np.stack([t, t ** 2, np.ones(N), np.cos(3 * t)])
    mon.close("evaluation-sites", np.asarray(site(jnp.zeros(4))), w.sum(axis=1), scale=np.abs(w).sum(axis=1) + 1e-300, rtol=1e-11 if case["x64"] else 1e-4, atol=1e-13 if case["x64"] else 1e-6)
    mon.count("evaluation_sites")
    mon.sample(dict(case={k: case[k] for k in ("d", "fk", "h", "N", "mode")}, y=y[0].tolist()))
