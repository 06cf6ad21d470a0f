"""C13: square-root and covariance forms, finiteness, symmetry, positive semi-definiteness along chains."""
import numpy as np

from vlib import fields as F
from vlib import priors

RULE = ("a case chains one Gaussian filter (fresh prior / posterior propagating / marginal parabola) over many intervals of a contractive time-dependent field, in both forms and precisions, "
        "on K parameter draws; the online invariants are evaluated at every link; non-trivial: the chain moves")
REQUIRE = {"links": 20000, "covariances": 15000, "pairs": 8000, "single_precision_links": 4000, "singular_priors": 8, "noise_free": 8}
ASSUMPTIONS = ["innovation covariance non-singular", "contractive fields, so that rounding is not amplified by the dynamics"]


def cases(tier, rng):
    out = []
    fil = ["ekf1_2", "ekf0", "ssm1", "ekf0_2", "ekf1", "ssm0"]
    n = 24 if tier == "quick" else 192
    for i in range(n):
        f = fil[i % 6]
        r = (i // 6) % 4
        out.append(dict(filter=f, d=[2, 1, 3][(i // 2) % 3], h=[0.05, 1e-3, 0.01, 0.1][(i + i // 6) % 4], M=[1, 4, 10][(i // 5) % 3], chain=150 if tier == "quick" else 600,
                        prior=["default", "rank1", "mixed", "zeroQ", "padded"][(i // 3 + i // 12) % 5] if not f.startswith("ssm") else ["default", "rank1", "matern"][r % 3],
                        noise=["none", "diag", "none", "full"][r], P0=["zero", "full", "rank1"][(i // 4) % 3], K=5, cost=2))
        # zeroQ without noise has a singular innovation covariance
        if out[-1]["prior"] == "zeroQ":
            out[-1]["noise"] = "diag"
            out[-1]["h"] = min(out[-1]["h"], 0.01)  # a deterministic prior cannot follow the field over long intervals
    for i, (f, d, h, M, n) in enumerate([("ekf1_2", 6, .02, 2, 60), ("ssm1", 5, .02, 1, 40), ("ekf0", 8, .05, 1, 60), ("ekf0_2", 5, .01, 3, 60), ("ssm0", 4, .01, 2, 40), ("ekf1", 2, 1e-4, 1, 400), ("ekf1_2", 2, 1e-4, 2, 400), ("ekf1_2", 1, .01, 1, 4000)]):
        out.append(dict(filter=f, d=d, h=h, M=M, chain=n * (1 if tier == "quick" else 3), prior="default", noise=["none", "diag"][i % 2], P0=["zero", "full"][i // 2 % 2], K=2, cost=2))
    return out


def make_prior(rng, kind, q, h, d):
    if kind == "default":
        return priors.draw(rng, "ibm", q, h, d)
    if kind in ("mixed", "padded", "matern"):
        return priors.draw(rng, kind, q, h, d)
    xi, Q, A = priors.draw(rng, "ibm", q, h, d)
    if kind == "rank1":
        Q = Q.copy()
        n = q + 1
        for i in range(d):
            v = np.array([h ** (q - j + .5) for j in range(n)]) * np.exp(rng.normal(size=n) * .3)
            Q[i * n:(i + 1) * n, i * n:(i + 1) * n] = np.outer(v, v)
    if kind == "zeroQ":
        Q = Q.copy()
        Q[:q + 1, :q + 1] = 0
    return xi, Q, A


def run(case, mon):
    import jax
    import jax.numpy as jnp
    from bayesian_sde_solver.ode_solvers import ekf0, ekf1, ekf0_2, ekf1_2
    from bayesian_sde_solver.ssm_parabola import ekf0_marginal_parabola, ekf1_marginal_parabola
    rng = np.random.default_rng(case["seed"])
    name, d, h, M, n, K = case["filter"], case["d"], case["h"], case["M"], case["chain"], case["K"]
    ssm, two = name.startswith("ssm"), name.endswith("_2")
    solver = dict(ekf0=ekf0, ekf1=ekf1, ekf0_2=ekf0_2, ekf1_2=ekf1_2, ssm0=ekf0_marginal_parabola, ssm1=ekf1_marginal_parabola)[name]
    q = 2 if case["prior"] == "padded" else (1 if two or ssm else [1, 2, 3][int(rng.integers(3))])
    if two or ssm:
        q = 1
    if case["prior"] == "rank1" and q > 1:
        q = 1
    if two and case["prior"] == "padded":
        case["prior"] = "mixed"
    T = h * M
    fs = []
    for _ in range(K):
        p = F.draw_drift(rng, d, "gen", .3)
        p["A"] = p["A"] - 1.5 * np.eye(d)
        fs.append(p)
    B = dict(f=F.stack(fs), x=rng.normal(size=(K, d)))
    if ssm:
        B["s"] = F.stack([F.draw_diffusion(rng, d, d, ["gen", "diag", "rankdef", "const"][int(rng.integers(4))], .3 * np.sqrt(min(T, 1))) for _ in range(K)])
    P0 = []
    for _ in range(K):
        L = rng.normal(size=(d, d)) * .1
        P0.append(dict(zero=0 * L, full=L @ L.T, rank1=np.outer(L[0], L[0]))[case["P0"]])
    B["P0"] = np.stack(P0)
    pr = [make_prior(rng, case["prior"], q, h, 1 if ssm else d) for _ in range(K)]
    B["pr"] = [np.stack([p[j] for p in pr]) for j in range(3)]
    if case["noise"] != "none":
        B["R"] = np.stack([priors.draw_noise(rng, case["noise"], d) * .1 for _ in range(K)])
    mon.count("singular_priors", case["prior"] in ("rank1", "zeroQ", "padded"))
    mon.count("noise_free", case["noise"] == "none")
    keys = jax.random.split(jax.random.PRNGKey(int(rng.integers(2 ** 31))), n)

    def chain(B, sqrt, ty, keyed):
        kw = dict(prior=tuple(B["pr"]), sqrt=sqrt)
        if "R" in B:
            kw["noise"] = B["R"]

        def link(c, inp):
            key, k = inp
            t0 = k * T
            vf = lambda x, t: F.drift(jnp, B["f"], x, t + t0)
            key = key if keyed else None
            if ssm:
                y, W, I = solver(key, c, T, vf, lambda x, t: F.sigma(jnp, B["s"], x, t + t0), h, M, **kw)
                return y, dict(x=y, W=W, I=I)
            if two:
                (s, m, P), (fs, fm, fP, S, z) = solver(key, c, vf, h, M, return_all=True, **kw)
                return (s, m, P), dict(x=s, m=m, P=P, fP=fP, S=S, z=z, fm=fm)
            y = solver(key, c, vf, h, M, **kw)
            return y, dict(x=y)

        c0 = (B["x"], B["x"], B["P0"]) if two else B["x"]
        return jax.lax.scan(link, c0, (keys, jnp.arange(n, dtype=ty)))[1]

    def go(sqrt, x64, keyed, eps=0.0):
        jax.config.update("jax_enable_x64", x64)
        ty = np.float64 if x64 else np.float32
        b = jax.tree_util.tree_map(lambda a: jnp.asarray(np.asarray(a), ty), B)
        b["x"] = b["x"] + eps
        r = jax.jit(jax.vmap(lambda b: chain(b, sqrt, ty, keyed)))(b)
        r = {k: np.asarray(v) for k, v in r.items()}
        jax.config.update("jax_enable_x64", True)
        for k, v in r.items():
            mon.true("dtype", v.dtype == ty, got=str(v.dtype), field=k)
        return r

    runs = dict(s64=go(True, True, False), f64=go(False, True, False), s32=go(True, False, False), sk=go(True, True, True), fk=go(False, True, True), sk32=go(True, False, True))
    link = np.max(np.abs(runs["s64"]["x"])) + 1
    for nm, r in runs.items():
        for k, v in r.items():
            mon.finite("finite:" + k, v, key=nm)
        mon.count("links", K * n)
        mon.count("single_precision_links", K * n if "32" in nm else 0)
        eps = 1e-9 if "32" not in nm else 1e-4
        for k in ("P", "fP", "S"):
            if k not in r:
                continue
            C = r[k].astype(float)
            if not np.all(np.isfinite(C)):
                continue
            sc = np.maximum(np.max(np.abs(C), axis=(-1, -2)), np.max(np.abs(B["pr"][1]), axis=(-1, -2))[:, None])[..., None, None]
            sc0 = sc[..., 0, 0]
            mon.close("symmetric:" + k, C / sc, np.swapaxes(C, -1, -2) / sc, rtol=0, atol=eps, key=nm)
            w = np.linalg.eigvalsh((C + np.swapaxes(C, -1, -2)) / 2)
            mon.bound("positive-semidefinite:" + k, np.max(-w[..., 0] / sc0), eps, key=nm)
            mon.count("covariances", C.shape[0] * C.shape[1])
    # the two forms, where the dynamics do not amplify rounding
    pert = np.abs(go(True, True, False, 1e-7)["x"] - runs["s64"]["x"])
    if not np.max(pert) < 1e-5:
        mon.count("skipped_unstable")
        return
    keep = np.ones(K, bool)
    for k in ("W", "I"):  # coefficients tens of deviations away come from a nearly vanishing diffusion, where they (and then the state) are ill determined
        if k in runs["s64"]:
            keep &= ~np.any((np.abs(runs["s64"][k]) > 8 * np.sqrt(T)) & (np.abs(runs["f64"][k]) > 8 * np.sqrt(T)), axis=(1, 2))
    mon.count("ill_determined", (~keep).sum())
    if not keep.any():
        return
    for k in runs["s64"]:
        a, b = runs["s64"][k][keep], runs["f64"][k][keep]
        sc = np.max(np.abs(a), axis=tuple(range(1, a.ndim)), keepdims=True)
        if k == "z":
            sc = np.maximum(sc, link)
        if k in ("W", "I"):
            sc = np.maximum(sc, np.sqrt(T))
        if k in ("P", "fP", "S"):
            sc = np.maximum(sc, np.max(np.abs(B["pr"][1][keep]), axis=(-1, -2)).reshape((-1,) + (1,) * (a.ndim - 1)))
        mon.close("forms-agree:" + k, b, a, rtol=1e-6, atol=1e-14, scale=np.broadcast_to(sc + (link if k in ("x", "m", "fm") else 0), a.shape))
        mon.count("pairs", int(keep.sum()) * n)
        c = runs["s32"][k][keep]
        if k in ("x", "m"):
            mon.close("single-precision:" + k, c, a, rtol=5e-3, atol=1e-12, scale=link)
    mon.ev(B["x"], runs["sk"]["x"], runs["s64"]["x"], n=K)
    mon.sample(dict(case={k: case[k] for k in ("filter", "d", "h", "M", "prior", "noise", "P0")}, end=runs["s64"]["x"][0, -1].tolist()))
