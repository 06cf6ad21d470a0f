"""C21: marginal parabola filters."""
import numpy as np

from vlib import fields as F
from vlib import priors, refs, stats

RULE = ("a 'mean' case compares a batch of filter runs with an independent float64 EKF on the augmented state; a 'conditional' case draws from the filter on linear problems and compares, conditionally on the drawn parabola, with the "
        "fixed-parabola filter of the code base itself; non-trivial: state- or time-dependent diffusion / non-zero parabola")
REQUIRE = {"filters": 180, "ekf0": 60, "ekf1": 60, "singular_sigma": 20, "noisy": 40, "given_prior": 60, "conditional_draws": 20000}
ASSUMPTIONS = ["innovation covariance non-singular", "square diffusion (the implementation requires it)"]
R6 = np.sqrt(6.0)


def cases(tier, rng):
    out = []
    for i in range(28 if tier == "quick" else 280):
        out.append(dict(kind="mean", filter=["ekf0", "ekf1"][i % 2], d=[2, 1, 3][(i // 2) % 3], N=[1, 3, 8, 2][(i // 3) % 4], h=[.1, .02, .3][(i // 5) % 3], sqrt=[True, False, None][(i // 2 + i // 6) % 3], rel=[1.0, 1.0, 2.0][(i // 4) % 3],
                        prior=["default", "matern", "drifted", "ioup"][(i // 2 + i // 8) % 4], noise=["none", "full", "zero", "diag"][(i // 3) % 4], fk=["gen", "linear", "time"][(i // 2) % 3],
                        sk=["gen", "rankdef", "time", "autonomous", "const", "hypo", "zero"][(i // 2) % 7], K=10, x64=bool(i % 9 != 8), mode="eager" if i % 10 == 9 else "jv"))
    for i, (d, N, h, rel, pr) in enumerate([(5, 3, .1, 1.0, "default"), (6, 2, .2, 1.0, "matern"), (2, 30, .02, 1.0, "default"), (1, 80, .01, 1.3, "default"), (2, 3, 1e-3, 1.0, "default"), (2, 2, .8, 1.0, "default"), (3, 5, .05, 4.0, "drifted"), (2, 4, .1, .5, "default"), (2, 2, 5.0, 1.0, "default"), (1, 3, 30.0, 1.0, "default"), (2, 2, 1e-6, 1.0, "default")]):
        for k in range(2):
            out.append(dict(kind="mean", filter=["ekf0", "ekf1"][k], d=d, N=N, h=h, sqrt=bool((i + k) % 2), rel=rel, prior=pr, noise=["none", "full"][(i + k) % 2], fk="gen", sk=["gen", "time"][i % 2], K=4, x64=True, mode="jv"))
    for i in range(8 if tier == "quick" else 60):
        out.append(dict(kind="conditional", filter=["ekf1", "ekf1", "ekf1"][i % 3], d=[1, 2, 3][i % 3], N=[2, 5, 1][(i // 2) % 3], h=[.1, .3][i % 2], sqrt=bool(i % 2), prior=["default", "matern"][(i // 2) % 2], noise=["full", "none", "diag"][i % 3],
                        sk=["const", "time"][(i // 2) % 2], n=4000, cost=2))
    return out


def run(case, mon):
    return (means if case["kind"] == "mean" else conditional)(case, mon)


def means(case, mon):
    import jax
    import jax.numpy as jnp
    from bayesian_sde_solver.ssm_parabola import ekf0_marginal_parabola, ekf1_marginal_parabola
    rng = np.random.default_rng(case["seed"])
    d, N, h, K = case["d"], case["N"], case["h"], 1 if case["mode"] == "eager" else case["K"]
    delta = N * h * case["rel"]  # the filter is also defined before the end of the interval
    solver = dict(ekf0=ekf0_marginal_parabola, ekf1=ekf1_marginal_parabola)[case["filter"]]
    ty = np.float64 if case["x64"] else np.float32
    noise = case["noise"] if case["x64"] else "full"
    pr = [priors.draw(rng, "ibm" if case["prior"] == "default" else case["prior"], 1, h, 1) for _ in range(K)]
    B = dict(fp=F.stack([F.draw_drift(rng, d, case["fk"], .8) for _ in range(K)]), sp=F.stack([F.draw_diffusion(rng, d, d, case["sk"], .8) for _ in range(K)]), x=rng.normal(size=(K, d)), pr=[np.stack([p[j] for p in pr]) for j in range(3)])
    if noise != "none":
        B["R"] = np.stack([priors.draw_noise(rng, noise, d) for _ in range(K)])
    F.unusual(rng, B["x"], far=case["x64"])
    B = jax.tree_util.tree_map(lambda a: np.asarray(a).astype(ty), B)

    def go(B):
        kw = {}
        if case["sqrt"] is not None:
            kw["sqrt"] = case["sqrt"]
        if not case["x64"]:
            kw["sqrt"] = True
        if case["prior"] != "default":
            kw["prior"] = tuple(B["pr"])
        if "R" in B:
            kw["noise"] = B["R"]
        return jnp.stack(solver(None, B["x"], delta, lambda x, t: F.drift(jnp, B["fp"], x, t), lambda x, t: F.sigma(jnp, B["sp"], x, t), h, N, **kw))

    if case["mode"] == "eager":
        y = np.asarray(go(jax.tree_util.tree_map(lambda a: jnp.asarray(a[0]), B)))[None]
    else:
        y = np.asarray(jax.jit(jax.vmap(go))(B))
    mon.true("dtype", y.dtype == ty, got=str(y.dtype))
    for i in range(K):
        b = jax.tree_util.tree_map(lambda a: a[i].astype(float), B)
        f, J = (lambda x, t: F.drift(np, b["fp"], x, t)), (lambda x, t: F.drift_jac(b["fp"], x, t))
        s, sj = (lambda x, t: F.sigma(np, b["sp"], x, t)), (lambda x, t: F.sigma_jac(b["sp"], x, t))
        (mm, PP, zz, SS), amp = refs.amplification(lambda: refs.alg4(b["x"], f, J, s, sj, delta, h, N, b["pr"], R=b.get("R"), ekf0=case["filter"] == "ekf0"))
        if amp[0] > (1e5 if case["x64"] else 30) or np.linalg.cond(SS) > 1e8 or not np.all(np.abs(mm) < 1e6):
            mon.count("skipped_ill_conditioned")
            continue
        tol = (1e-10 if case["x64"] else 1e-4) * (20 + amp[0])
        want = np.stack([mm[::4], mm[2::4], mm[3::4]])
        key = case["filter"]
        for j, nm in enumerate(("solution", "increment", "second-coefficient")):
            mon.close("mean:" + nm, y[i][j], want[j], rtol=tol, atol=0, scale=1 + np.max(np.abs(want)), key=key)
        mon.count("filters")
        mon.count(case["filter"])
        mon.count("singular_sigma", case["sk"] in ("rankdef", "hypo", "zero"))
        mon.count("noisy", noise in ("full", "diag"))
        mon.count("given_prior", case["prior"] != "default")
        mon.ev(b["x"], y[i], nontrivial=case["sk"] not in ("zero", "const"))
    mon.sample(dict(case={k: case[k] for k in ("filter", "d", "N", "h", "prior", "noise", "sk")}, x0=B["x"][0].tolist(), out=y[0].tolist()))


def conditional(case, mon):
    import jax
    import jax.numpy as jnp
    from bayesian_sde_solver.ode_solvers import ekf1
    from bayesian_sde_solver.ssm_parabola import ekf1_marginal_parabola
    rng = np.random.default_rng(case["seed"])
    d, N, h, n = case["d"], case["N"], case["h"], case["n"]
    delta = N * h
    fp, sp = F.draw_drift(rng, d, "linear", .8), F.draw_diffusion(rng, d, d, case["sk"], .8)
    x0 = rng.normal(size=d)
    kw, kw2 = dict(sqrt=case["sqrt"]), dict(sqrt=True)
    pr1 = priors.draw(rng, "ibm" if case["prior"] == "default" else case["prior"], 1, h, 1)
    pr = priors.stack_blocks([pr1] * d)
    if case["prior"] != "default":
        kw["prior"] = tuple(map(jnp.asarray, pr1))
        kw2["prior"] = tuple(map(jnp.asarray, pr))
    R = priors.draw_noise(rng, case["noise"], d)
    if R is not None:
        kw["noise"] = kw2["noise"] = jnp.asarray(R)
    f, s = (lambda x, t: F.drift(jnp, fp, x, t)), (lambda x, t: F.sigma(jnp, sp, x, t))
    keys = jax.random.split(jax.random.PRNGKey(int(rng.integers(2 ** 31))), n)
    y, W, I = map(np.asarray, jax.jit(jax.vmap(lambda k: ekf1_marginal_parabola(k, x0, delta, f, s, h, N, **kw)))(keys))
    fixed = jax.jit(jax.vmap(lambda a, b: ekf1(None, x0, lambda x, t: f(x, t) + s(x, t) @ (a / delta + R6 * b * (1 - 2 * t / delta) / delta), h, N, **kw2)))
    m = np.asarray(fixed(W, I))
    f0, J0 = (lambda x, t: F.drift(np, fp, x, t)), (lambda x, t: F.drift_jac(fp, x, t))
    _, C, _, _ = refs.ode_filter(x0, f0, J0, None, h, N, pr, 2, R=R)
    C = C[::2, ::2]
    r = y - m
    mon.count("conditional_draws", n)
    sc = 1 + np.max(np.abs(m))
    w, V = np.linalg.eigh(C)
    res = (r @ V) / np.sqrt(np.clip(w, 1e-14 * sc ** 2, None))
    good = w > 1e-12 * sc ** 2
    if np.any(~good):
        mon.bound("conditional-deterministic", np.max(np.abs((r @ V)[:, ~good])) / sc, 2e-5)
    if np.any(good):
        Z = res[:, good]
        stats.standard_normal(mon, "conditional-law", Z[None], key="conditional")
        for X, nm in ((W, "increment"), (I, "second-coefficient")):
            sd = X.std(axis=0)
            for j in range(d):
                if sd[j] > 1e-6 * np.sqrt(delta):
                    mon.bound("conditional-residual-uncorrelated:" + nm, np.abs(stats.zscore_cov(Z, ((X[:, j] - X[:, j].mean()) / sd[j])[:, None])), stats.LIMIT)
    mon.ev(x0, y[:3], W[:3], n=n)
    mon.sample(dict(case={k: case[k] for k in ("d", "N", "h", "prior", "noise")}, cov=C.tolist()))
