"""C16: posterior-propagating filters: Gaussian propagation, and non-interference of the sampling."""
import numpy as np

from vlib import fields as F
from vlib import priors, refs

RULE = ("a 'solve' case is a batch of single solves from random carried laws compared with an independent float64 propagation, repeated with other incoming samples and keys; a 'chain' case runs the filter through the SDE driver and "
        "replays the whole chain of means and covariances from the returned Brownian coefficients; non-trivial: time- and state-dependent field")
REQUIRE = {"solves": 200, "interference_pairs": 300, "chain_intervals": 300, "singular_law": 40, "noisy": 40, "given_prior": 80}
ASSUMPTIONS = ["innovation covariance non-singular"]
R6 = np.sqrt(6.0)


def cases(tier, rng):
    out = []
    for i in range(24 if tier == "quick" else 240):
        out.append(dict(kind="solve", filter=["ekf0_2", "ekf1_2"][i % 2], d=[2, 1, 3][(i // 2) % 3], N=[1, 3, 10][(i // 3) % 3], h=[.1, .02, .4][(i // 5) % 3], sqrt=[True, False, None][(i // 2) % 3],
                        prior=["default", "mixed", "matern", "drifted"][(i // 4) % 4], noise=["none", "full", "zero", "diag"][(i // 2 + i // 8) % 4], P0=["full", "zero", "rank1", "big"][(i // 3 + i // 12) % 4], K=12,
                        all=bool(i % 4 == 3), mode="eager" if i % 8 == 7 else "jv"))
    for i in range(12 if tier == "quick" else 100):
        out.append(dict(kind="chain", filter=["ekf0_2", "ekf1_2"][i % 2], d=[2, 1, 2][i % 3], m=[2, 1, 1, 3][(i // 2) % 4], M=[1, 4, 8][(i // 3) % 3], n=[4, 12, 25][(i // 2) % 3], delta=[.1, .03][(i // 4) % 2],
                        sqrt=bool((i // 2) % 2), noise=["none", "full"][(i // 3) % 2], P0=["full", "zero", "rank1"][(i // 2) % 3], prior=["default", "matern"][(i // 5) % 2],
                        bm=["get_approx", "fine"][i % 2], keyed=bool(i % 4 < 3), K=6, cost=2))
    for i, (d, N, h, pr, noise, P0) in enumerate([(6, 4, .1, "default", "full", "full"), (5, 3, .2, "mixed", "none", "full"), (2, 80, .02, "default", "none", "full"), (2, 5, 1e-4, "default", "none", "full"), (3, 2, 1.0, "default", "full", "big"), (4, 25, .05, "matern", "diag", "rank1"), (2, 2, 6.0, "default", "none", "full"), (1, 3, 40.0, "default", "full", "full"), (2, 4, 1e-6, "default", "none", "full"), (2, 1, 15.0, "default", "diag", "big")]):
        for k in range(2):
            out.append(dict(kind="solve", filter=["ekf0_2", "ekf1_2"][k], d=d, N=N, h=h, sqrt=bool((i + k) % 2), prior=pr, noise=noise, P0=P0, K=5, all=bool(i % 2), mode="jv"))
    for i in range(8 if tier == "quick" else 64):
        out.append(dict(kind="solve", filter=["ekf0_2", "ekf1_2"][i % 2], d=[1, 2, 3][i % 3], N=[1, 4][(i // 4) % 2], h=[.1, .03, .3][i % 3], sqrt=[True, False, None][(i // 2) % 3], prior=["default", "matern"][(i // 3) % 2],
                        noise=["full", "none", "diag"][(i // 2) % 3], P0=["huge", "tiny"][(i // 2 + i // 4) % 2], K=8, all=bool(i % 4 == 1), mode="jv"))
    for i in range(4 if tier == "quick" else 24):
        out.append(dict(kind="chain", filter=["ekf0_2", "ekf1_2"][i % 2], d=[2, 1][i % 2], m=[2, 1][i % 2], M=[2, 4][i % 2], n=5, delta=[.1, .05][i % 2], sqrt=bool((i // 2) % 2), noise=["full", "none"][(i // 2) % 2],
                        P0=["huge", "tiny"][(i // 2) % 2], prior="default", bm="get_approx", keyed=bool(i % 3), K=4, cost=2))
    for i, (d, m, M, n, delta) in enumerate([(5, 4, 2, 6, .1), (2, 2, 1, 150, .02), (1, 2, 30, 5, .2)]):
        for k in range(2):
            out.append(dict(kind="chain", filter=["ekf0_2", "ekf1_2"][k], d=d, m=m, M=M, n=n, delta=delta, sqrt=bool((i + k) % 2), noise="none", P0="full", prior="default", bm="get_approx", keyed=bool(i % 2), K=2, cost=2))
    return out


def law(rng, kind, d):
    L = rng.normal(size=(d, d)) * .2
    return dict(zero=0 * L, full=L @ L.T + .01 * np.eye(d), rank1=np.outer(L[0], L[0]), big=25 * L @ L.T, huge=1e5 * L @ L.T, tiny=1e-9 * L @ L.T)[kind]


def run(case, mon):
    return (chain if case["kind"] == "chain" else solve)(case, mon)


def solve(case, mon):
    import jax
    import jax.numpy as jnp
    from bayesian_sde_solver.ode_solvers import ekf0_2, ekf1_2
    rng = np.random.default_rng(case["seed"])
    d, N, h, K = case["d"], case["N"], case["h"], 1 if case["mode"] == "eager" else case["K"]
    solver = dict(ekf0_2=ekf0_2, ekf1_2=ekf1_2)[case["filter"]]
    e0 = case["filter"] == "ekf0_2"
    pr = [priors.draw(rng, "ibm" if case["prior"] == "default" else case["prior"], 1, h, d) for _ in range(K)]
    B = dict(fp=F.stack([F.draw_drift(rng, d, "gen", .8) for _ in range(K)]), m=rng.normal(size=(K, d)), s=rng.normal(size=(K, d)) * 3, P=np.stack([law(rng, case["P0"], d) for _ in range(K)]),
             pr=[np.stack([p[j] for p in pr]) for j in range(3)])
    F.unusual(rng, B["m"], far=True)
    if case["noise"] != "none":
        B["R"] = np.stack([priors.draw_noise(rng, case["noise"], d) for _ in range(K)])
    B["key"] = np.asarray(jax.random.split(jax.random.PRNGKey(int(rng.integers(2 ** 31))), K))

    def go(B, keyed=True):
        kw = {}
        if case["sqrt"] is not None:
            kw["sqrt"] = case["sqrt"]
        if case["prior"] != "default":
            kw["prior"] = tuple(B["pr"])
        if "R" in B:
            kw["noise"] = B["R"]
        o = solver(B["key"] if keyed else None, (B["s"], B["m"], B["P"]), lambda x, t: F.drift(jnp, B["fp"], x, t), h, N, return_all=case["all"], **kw)
        return o if case["all"] else (o, ())

    if case["mode"] == "eager":
        prog = lambda B, keyed: jax.tree_util.tree_map(lambda a: np.asarray(a)[None], go(jax.tree_util.tree_map(lambda a: jnp.asarray(a[0]), B), keyed))
    else:
        pk, pn = jax.jit(jax.vmap(go)), jax.jit(jax.vmap(lambda B: go(B, False)))
        prog = lambda B, keyed: jax.tree_util.tree_map(np.asarray, (pk if keyed else pn)(B))
    (s, m, P), ex = prog(B, True)
    # the incoming sample is ignored altogether, the key only moves the outgoing sample
    other = dict(B, s=B["s"] * -2 + 1)
    (s2, m2, P2), ex2 = prog(other, True)
    for nm, a, b in (("mean", m, m2), ("covariance", P, P2)):
        mon.equal("incoming-sample-ignored:" + nm, b, a, key=case["filter"])
    other = dict(B, key=B["key"][:, ::-1] + np.uint32(1))
    (s3, m3, P3), ex3 = prog(other, True)
    mon.equal("key-moves-only-sample:mean", m3, m, key=case["filter"])
    mon.equal("key-moves-only-sample:covariance", P3, P, key=case["filter"])
    if case["all"]:
        for j, nm in ((1, "full-mean"), (2, "full-covariance"), (3, "S"), (4, "z")):
            mon.equal("key-moves-only-sample:" + nm, ex3[j], ex[j], key=case["filter"])
    (s4, m4, P4), _ = prog(B, False)
    mon.close("no-key-mean", m4, m, rtol=1e-9, atol=1e-12, scale=1 + np.abs(m))
    mon.equal("no-key-sample-is-mean", s4, m4)
    mon.count("interference_pairs", 3 * K)
    for i in range(K):
        b = jax.tree_util.tree_map(lambda a: a[i], B)
        f, J = (lambda x, t: F.drift(np, b["fp"], x, t)), (lambda x, t: F.drift_jac(b["fp"], x, t))
        (mm, PP, z, S), amp = refs.amplification(lambda: refs.alg3(b["m"], b["P"], f, J, h, N, b["pr"], R=b.get("R"), ekf0=e0))
        if max(amp[:2]) > 1e6 or not np.all(np.abs(mm) < 1e6):
            mon.count("skipped_ill_conditioned")
            continue
        tol = 1e-10 * (100 + max(amp[:2]))
        mon.close("mean", m[i], mm[::2], rtol=tol, atol=0, scale=1 + np.max(np.abs(mm)), key=case["filter"])
        mon.close("covariance", P[i], PP[::2, ::2], rtol=tol, atol=1e-15, scale=max(np.max(np.abs(PP[::2, ::2])), 1e-3 * np.max(np.abs(b["P"]))), key=case["filter"])
        mon.count("solves")
        mon.count("singular_law", case["P0"] in ("zero", "rank1"))
        mon.count("noisy", case["noise"] in ("full", "diag"))
        mon.count("given_prior", case["prior"] != "default")
        mon.ev(b["m"], b["P"], m[i], P[i])
    mon.true("sample-moves-with-key", not np.array_equal(s, s3) or float(np.max(np.abs(P))) < 1e-20)
    mon.sample(dict(case={k: case[k] for k in ("filter", "d", "N", "h", "prior", "noise", "P0", "sqrt")}, mean=m[0].tolist(), cov=P[0].tolist()))


def chain(case, mon):
    import jax
    import jax.numpy as jnp
    from bayesian_sde_solver.foster_polynomial import get_approx, get_approx_fine
    from bayesian_sde_solver.ode_solvers import ekf0_2, ekf1_2
    from bayesian_sde_solver.sde_solver import sde_solver
    rng = np.random.default_rng(case["seed"])
    d, mm_, M, n, delta, K = case["d"], case["m"], case["M"], case["n"], case["delta"], case["K"]
    solver = dict(ekf0_2=ekf0_2, ekf1_2=ekf1_2)[case["filter"]]
    e0 = case["filter"] == "ekf0_2"
    h = delta / M
    pr = priors.draw(rng, "ibm" if case["prior"] == "default" else case["prior"], 1, h, d)
    R = priors.draw_noise(rng, case["noise"], d)
    kw = dict(sqrt=case["sqrt"])
    if case["prior"] != "default":
        kw["prior"] = tuple(map(jnp.asarray, pr))
    if R is not None:
        kw["noise"] = jnp.asarray(R)
    fp = F.stack([F.draw_drift(rng, d, "gen", .7) for _ in range(K)])
    sp = F.stack([F.draw_diffusion(rng, d, mm_, "gen", .6) for _ in range(K)])
    x0, P0 = rng.normal(size=(K, d)), np.stack([law(rng, case["P0"], d) for _ in range(K)])
    bm = (lambda: get_approx(dim=mm_)) if case["bm"] == "get_approx" else (lambda: get_approx_fine(dim=mm_, N=5))

    def integ(key, init, vector_field, T):
        return solver(key if case["keyed"] else None, init, vector_field, T / M, M, **kw)

    def go(key, x, P, fp, sp):
        return sde_solver(key, lambda z, t: F.drift(jnp, fp, z, t), lambda z, t: F.sigma(jnp, sp, z, t), (x + 1.0, x, P), bm, delta, n, integ)

    keys = jax.random.split(jax.random.PRNGKey(int(rng.integers(2 ** 31))), K)
    ts, (s, m, P), *co = jax.tree_util.tree_map(np.asarray, jax.jit(jax.vmap(go))(keys, x0, P0, fp, sp))
    for i in range(K):
        fq, sq = F.pick(fp, i), F.pick(sp, i)

        def whole():
            ms, Ps = [x0[i]], [P0[i]]
            for k in range(n):
                a, b = co[0][i][k], co[1][i][k]
                t0 = k * delta
                sl = lambda t: a / delta + R6 * b * (1 - 2 * t / delta) / delta
                f = lambda x, t: F.drift(np, fq, x, t + t0) + F.sigma(np, sq, x, t + t0) @ sl(t)
                J = lambda x, t: F.drift_jac(fq, x, t + t0) + np.einsum("ikj,k->ij", F.sigma_jac(sq, x, t + t0), sl(t))
                mu, C, _, _ = refs.alg3(ms[-1], Ps[-1], f, J, h, M, pr, R=R, ekf0=e0)
                ms.append(mu[::2])
                Ps.append(C[::2, ::2])
            return np.array(ms), np.array(Ps)
        (ms, Ps), amp = refs.amplification(whole, runs=1)
        if max(amp) > 1e5 or not np.all(np.abs(ms) < 1e4):
            mon.count("skipped_ill_conditioned")
            continue
        tol = 1e-10 * (100 + max(amp))
        mon.close("chain-means", m[i], ms, rtol=tol, atol=0, scale=1 + np.max(np.abs(ms)), key=case["filter"])
        mon.close("chain-covariances", P[i], Ps, rtol=tol, atol=1e-15, scale=np.max(np.abs(Ps), axis=(1, 2), keepdims=True) + 1e-3 * np.max(np.abs(Ps)) + 0 * Ps, key=case["filter"])
        mon.count("chain_intervals", n)
        mon.ev(x0[i], P0[i], m[i, -1], P[i, -1])
