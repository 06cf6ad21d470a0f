"""C12: EKF0 / EKF1 ODE filters against an independent filter."""
import numpy as np

from vlib import fields as F
from vlib import priors, refs

RULE = ("a case is a batch of filter calls (solver, prior family and order, noise, N, h, d, form) on random time-dependent fields, compared to an independent float64 EKF; results whose reference is itself "
        "ill-determined (amplification of rounding above 1e5) are skipped and counted; non-trivial: state- and time-dependent field")
REQUIRE = {"filters": 250, "ekf0": 100, "ekf1": 100, "order1": 100, "order2": 60, "order3": 30, "default_prior": 20, "noisy": 60}
ASSUMPTIONS = ["innovation covariance non-singular"]


def cases(tier, rng):
    out = []
    kinds = ["default", "ibm", "mixed", "ibm-scaled", "matern", "drifted", "padded", "ioup"]
    n = 40 if tier == "quick" else 420
    for i in range(n):
        pk = kinds[(i // 2) % 8]
        q = 1 if pk == "default" else [1, 2, 3, 2][(i // 3) % 4]
        if pk == "padded":
            q = max(q, 2)
        out.append(dict(solver=["ekf0", "ekf1"][i % 2], prior=pk, q=q, d=[1, 2, 3][(i // 2 + i // 16) % 3], N=int([1, 2, 4, 10][rng.integers(4)]), h=float([0.1, 0.02, 0.3, 0.5][rng.integers(4)]),
                        noise=["none", "full", "none", "diag", "zero"][(i // 4) % 5], sqrt=[True, False, None][(i // 2 + i // 3) % 3], K=10, x64=bool(i % 8 != 7 or q > 1),
                        mode="eager" if i % 10 == 9 else "jv", fk=["gen", "gen", "time", "linear"][int(rng.integers(4))]))
    wide = [("default", 1, 6, 4, .1), ("default", 1, 9, 3, .05), ("ibm", 2, 5, 5, .1), ("mixed", 2, 4, 4, .2), ("ibm", 4, 2, 5, .2), ("ibm", 5, 1, 4, .3), ("default", 1, 2, 60, .05), ("mixed", 2, 2, 120, .02),
            ("default", 1, 2, 25, 1e-4), ("ibm-scaled", 2, 2, 12, 1e-3), ("default", 1, 2, 3, 1.5), ("ibm", 3, 3, 30, .1), ("default", 1, 1, 300, .01), ("drifted", 1, 5, 8, .1), ("ioup", 1, 4, 6, .05), ("matern", 2, 4, 6, .1),
            ("default", 1, 2, 2, 6.0), ("default", 1, 1, 3, 50.0), ("ibm-scaled", 2, 2, 2, 5.0), ("mixed", 1, 2, 3, 12.0), ("default", 1, 2, 4, 1e-6)]
    for r in range(1 if tier == "quick" else 8):
        for i, (pk, q, d, N, h) in enumerate(wide):
            for k in range(2):
                out.append(dict(solver=["ekf0", "ekf1"][k], prior=pk, q=q, d=d, N=N + r, h=h, noise=["none", "full", "diag", "none"][(i + r + k) % 4], sqrt=bool((i + r + k // 2) % 2), K=4, x64=True, mode="jv", fk=["gen", "gen", "time"][(i + r) % 3]))
    return out


def run(case, mon):
    import jax
    import jax.numpy as jnp
    from bayesian_sde_solver.ode_solvers import ekf0, ekf1
    rng = np.random.default_rng(case["seed"])
    d, q, N, h, K = case["d"], case["q"], case["N"], case["h"], case["K"]
    K = 1 if case["mode"] == "eager" else K
    ty = np.float64 if case["x64"] else np.float32
    solver = dict(ekf0=ekf0, ekf1=ekf1)[case["solver"]]
    fps = F.stack([F.draw_drift(rng, d, case["fk"]) for _ in range(K)])
    x0 = rng.normal(size=(K, d))
    F.unusual(rng, x0, far=case.get("x64", True))
    pr = [priors.draw(rng, "ibm" if case["prior"] == "default" else case["prior"], q, h, d) for _ in range(K)]
    Rs = [priors.draw_noise(rng, case["noise"], d) for _ in range(K)]
    B = dict(x=x0, pr=[np.stack([p[j] for p in pr]) for j in range(3)], fp=fps)
    if case["noise"] != "none":
        B["R"] = np.stack(Rs)
    B = jax.tree_util.tree_map(lambda a: np.asarray(a).astype(ty), B)

    def go(B):
        kw = {}
        if case["prior"] != "default":
            kw["prior"] = tuple(B["pr"])
        if "R" in B:
            kw["noise"] = B["R"]
        if case["sqrt"] is not None:
            kw["sqrt"] = case["sqrt"]
        return solver(None, B["x"], lambda x, t: F.drift(jnp, B["fp"], x, t), h, N, **kw)

    if case["mode"] == "eager":
        y = np.asarray(go(jax.tree_util.tree_map(lambda a: jnp.asarray(a[0]), B)))[None]
    else:
        y = np.asarray(jax.jit(jax.vmap(go))(B))
    mon.true("shape", y.shape == (K, d), got=list(y.shape))
    mon.true("dtype", y.dtype == ty, got=str(y.dtype))
    for i in range(K):
        b = jax.tree_util.tree_map(lambda a: a[i].astype(float), B)
        P = b["fp"]
        f, J, D = (lambda x, t: F.drift(np, P, x, t)), (lambda x, t: F.drift_jac(P, x, t)), (lambda x, t: F.drift_dt(P, x, t))
        (mm, PP, zz, SS), amp = refs.amplification(lambda: refs.ode_filter(b["x"], f, J, D, h, N, b["pr"], q + 1, R=b.get("R"), ekf0=case["solver"] == "ekf0"))
        a = max(amp[0], 1.0)
        if a > (1e5 if case["x64"] else 30) or np.linalg.cond(SS) > 1e8 or not np.all(np.abs(mm) < 1e6):
            mon.count("skipped_ill_conditioned")
            continue
        want = mm[::q + 1]
        tol = (1e-10 if case["x64"] else 1e-4) * (20 + a)
        mon.close("posterior-mean", y[i], want, scale=1 + np.max(np.abs(want)), rtol=tol, atol=0, key=case["solver"])
        mon.count("filters")
        mon.count(case["solver"])
        mon.count("order%d" % q)
        mon.count("default_prior", case["prior"] == "default")
        mon.count("noisy", case["noise"] in ("full", "diag"))
        mon.ev(x0[i], fps["A"][i], y[i], nontrivial=case["fk"] != "time" or case["solver"] == "ekf0")
    mon.sample(dict(case={k: case[k] for k in ("solver", "prior", "q", "d", "N", "h", "noise", "sqrt")}, x0=x0[0].tolist(), y=y[0].tolist()))
