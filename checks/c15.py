"""C15: the law of the samples the filters return."""
import numpy as np

from vlib import fields as F
from vlib import priors, refs, stats

RULE = ("a case draws tens of thousands of samples of one filter on one random model over distinct keys and whitens them with the posterior of an independent float64 filter; every statistic of the whitened draws is a "
        "z-score; non-trivial: non-degenerate posterior")
REQUIRE = {"models": 30, "draws": 1500000, "sqrt": 10, "full": 10, "ssm": 8, "posterior_propagating": 8, "fresh": 10}
ASSUMPTIONS = ["JAX's normal generator", "limits of 7 standard errors"]


def cases(tier, rng):
    out = []
    fil = ["ekf0", "ssm1", "ekf1_2", "ekf1", "ssm0", "ekf0_2"]
    for i in range(36 if tier == "quick" else 300):
        out.append(dict(filter=fil[i % 6], sqrt=bool((i // 6) % 2), d=[2, 1, 3][(i // 2) % 3], N=[3, 1, 8][(i // 4) % 3], h=[.1, .4, .02][(i // 5) % 3], noise=["full", "none", "diag"][(i // 3) % 3],
                        prior=["default", "mixed", "matern"][(i // 7) % 3], q=[1, 2, 3][(i // 6) % 3], P0=["full", "rank1", "zero"][(i // 6) % 3], keys=["split", "counter"][i % 2],
                        n=40000 if tier == "quick" else 200000, x64=bool(i % 9 != 8)))
    for i, (f, d, N, h, pr, q, noise) in enumerate([("ekf1", 5, 3, .2, "default", 1, "full"), ("ekf0", 6, 2, .1, "mixed", 2, "full"), ("ekf1_2", 5, 3, .2, "default", 1, "full"), ("ekf0_2", 6, 2, .1, "mixed", 1, "none"),
                                                   ("ssm1", 5, 2, .2, "default", 1, "full"), ("ssm0", 4, 3, .1, "matern", 1, "none"), ("ekf1", 2, 60, .05, "default", 1, "full"), ("ekf1_2", 2, 60, .05, "default", 1, "diag"), ("ssm1", 2, 40, .05, "default", 1, "none"),
                                                   ("ekf1", 2, 4, 1e-3, "ibm-scaled", 1, "none"), ("ekf1", 4, 2, .2, "ibm", 4, "full")]):
        for sq in ((bool(i % 2),) if tier == "quick" else (True, False)):
            out.append(dict(filter=f, sqrt=sq, d=d, N=N, h=h, noise=noise, prior=pr, q=q, P0="full", keys=["split", "counter"][i % 2], n=20000, x64=True))
    for i, (f, d) in enumerate((f, d) for f in fil for d in (1, 2)):  # every filter in one dimension, both forms
        for sq in (False, True):
            if d == 1 or tier != "quick":
                out.append(dict(filter=f, sqrt=sq, d=d, N=[3, 2, 5][i % 3], h=[.2, .4][i % 2], noise=["full", "none"][(i // 2 + sq) % 2], prior=["default", "mixed"][i % 2], q=[1, 2][(i // 2) % 2], P0="full", keys="split", n=20000, x64=True))
    return out


def run(case, mon):
    import jax
    import jax.numpy as jnp
    from bayesian_sde_solver.ode_solvers import ekf0, ekf1, ekf0_2, ekf1_2
    from bayesian_sde_solver.ssm_parabola import ekf0_marginal_parabola, ekf1_marginal_parabola
    rng = np.random.default_rng(case["seed"])
    name, d, N, h, n = case["filter"], case["d"], case["N"], case["h"], case["n"]
    ssm, two = name.startswith("ssm"), name.endswith("_2")
    e0 = "0" in name
    solver = dict(ekf0=ekf0, ekf1=ekf1, ekf0_2=ekf0_2, ekf1_2=ekf1_2, ssm0=ekf0_marginal_parabola, ssm1=ekf1_marginal_parabola)[name]
    q = 1 if two or ssm or case["prior"] == "default" else case["q"]
    P, S = F.draw_drift(rng, d, "gen", .8), F.draw_diffusion(rng, d, d, "gen", .8)
    x0 = rng.normal(size=d) * [1, 0, 1, 1][case["seed"][1] % 4]
    f, J, D = (lambda x, t: F.drift(np, P, x, t)), (lambda x, t: F.drift_jac(P, x, t)), (lambda x, t: F.drift_dt(P, x, t))
    if ssm:
        pr = priors.draw(rng, "ibm" if case["prior"] == "default" else ["matern", "ioup"][int(rng.integers(2))], 1, h, 1)
    else:
        pr = priors.draw(rng, "ibm" if case["prior"] == "default" else case["prior"], q, h, d)
    noise = case["noise"] if case["x64"] else "full"
    R = priors.draw_noise(rng, noise, d)
    L = rng.normal(size=(d, d)) * .2
    P0 = dict(zero=0 * L, full=L @ L.T, rank1=np.outer(L[0], L[0]))[case["P0"]]
    ty = np.float64 if case["x64"] else np.float32
    kw = dict(sqrt=case["sqrt"] or not case["x64"])
    if case["prior"] != "default":
        kw["prior"] = tuple(jnp.asarray(a, ty) for a in pr)
    if R is not None:
        kw["noise"] = jnp.asarray(R, ty)
    x = jnp.asarray(x0, ty)
    jf, js = (lambda x, t: F.drift(jnp, jp, x, t)), (lambda x, t: F.sigma(jnp, jS, x, t))
    jp, jS = jax.tree_util.tree_map(lambda a: jnp.asarray(a, ty), (P, S))
    if ssm:
        go = lambda key: jnp.stack(solver(key, x, N * h, jf, js, h, N, **kw))
        ref = lambda: refs.alg4(x0, f, J, lambda x, t: F.sigma(np, S, x, t), lambda x, t: F.sigma_jac(S, x, t), N * h, h, N, pr, R=R, ekf0=e0)
        idx = np.concatenate([np.arange(d) * 4, np.arange(d) * 4 + 2, np.arange(d) * 4 + 3])
    elif two:
        # the full state sample; its solution part must be the returned sample
        def go(key):
            (s, m, C), ex = solver(key, (x + 3.0, x, jnp.asarray(P0, ty)), jf, h, N, return_all=True, **kw)
            return jnp.stack([ex[0][::2], ex[0][1::2], s])
        ref = lambda: refs.alg3(x0, P0, f, J, h, N, pr, R=R, ekf0=e0)
        idx = np.concatenate([np.arange(d) * 2, np.arange(d) * 2 + 1])
    else:
        go = lambda key: solver(key, x, jf, h, N, **kw)[None]
        ref = lambda: refs.ode_filter(x0, f, J, D, h, N, pr, q + 1, R=R, ekf0=e0)
        idx = np.arange(d) * (q + 1)
    s0 = int(rng.integers(2 ** 31 - n))
    keys = jax.random.split(jax.random.PRNGKey(s0), n) if case["keys"] == "split" else jax.vmap(jax.random.PRNGKey)(jnp.arange(s0, s0 + n, dtype=jnp.uint32))
    prog = jax.jit(jax.vmap(go))
    Z = np.asarray(prog(keys))
    mean = np.asarray(jax.jit(lambda: go(None))())
    again = np.asarray(prog(keys))
    mon.equal("same-key-same-draw", again, Z)
    mon.finite("finite", Z)
    if not kw["sqrt"]:  # the factor of a singular covariance is not unique, so the square-root form only fixes the law
        mon.close("eager-draw", np.asarray(go(keys[7])), Z[7], rtol=1e-5, atol=1e-9, scale=1 + np.max(np.abs(Z[7])), key=name)
    if two:
        mon.equal("solution-part", Z[:, 2], Z[:, 0])
        Z, mean = Z[:, :2], mean[:2]
    Z = Z.reshape(n, -1).astype(float)
    (m, C, z, SS), amp = refs.amplification(ref)
    C, m = C[np.ix_(idx, idx)], m[idx]
    if max(amp[:2]) > (1e6 if case["x64"] else 1e3) or not np.all(np.abs(m) < 1e5):
        mon.count("skipped_ill_conditioned")
        return
    msc = 1 + np.max(np.abs(m))
    mtol = (1e-10 if case["x64"] else 1e-4) * (20 + amp[0])
    mon.close("no-key-gives-mean", mean.ravel(), m, rtol=mtol, atol=0, scale=msc, key=name)
    sc = np.sqrt(np.clip(np.diag(C), 0, None))
    floor = max(1e-6 if case["x64"] else 3e-3, mtol) * msc * (1 if not case["x64"] else 1)
    live = sc > 0
    sc = np.where(live, sc, 1.0)
    w, V = np.linalg.eigh(C / np.outer(sc, sc))
    dev = (Z - mean.ravel()) / sc
    Y = dev @ V
    # directions in which the reference is resolved
    tolw = 1e-5 if case["x64"] else 3e-3
    good = (w > tolw) & True
    # their standard deviation in absolute terms is compared to rounding
    absd = np.sqrt(np.clip(w, 0, None)) * np.min(sc[live]) if np.any(live) else 0 * w
    good &= absd > (1e-9 if case["x64"] else 2e-3) * msc
    if not np.all(good):
        mon.bound("degenerate-directions", np.max(np.abs(Y[:, ~good])) if np.any(~good) else 0.0, 8 * np.sqrt(tolw) + (1e-7 if case["x64"] else 2e-2) * msc / np.min(sc[live]) if np.any(live) else 1e-6, key=name)
    if not np.any(good):
        mon.count("degenerate_posteriors")
        return
    Y = Y[:, good] / np.sqrt(w[good])
    stats.standard_normal(mon, "whitened", Y[None], key=name)
    stats.distinct_rows(mon, "draws-distinct", Z, key=name)
    mon.count("models")
    mon.count("sqrt", bool(kw["sqrt"]))
    mon.count("full", not kw["sqrt"])
    mon.count("ssm", ssm)
    mon.count("posterior_propagating", two)
    mon.count("fresh", not ssm and not two)
    mon.ev(x0, P["A"], Z[:3], n=n)
    mon.sample(dict(case={k: case[k] for k in ("filter", "sqrt", "d", "N", "h", "noise", "prior")}, mean=m.tolist(), std=sc.tolist(), directions=int(np.sum(good))))
