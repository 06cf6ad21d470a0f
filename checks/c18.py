"""C18: integrated Brownian motion / integrated Ornstein-Uhlenbeck priors."""
import numpy as np
import scipy.linalg as sla

from vlib import refs

RULE = ("a case is a batch of prior evaluations over random step lengths (five decades), scales, orders and dimensions, compared with closed forms, with van Loan's matrix exponential and with each other through the semigroup property; "
        "non-trivial: q >= 1")
REQUIRE = {"priors": 400, "semigroups": 150, "ou": 100}
ASSUMPTIONS = ["scipy.linalg.expm"]


def cases(tier, rng):
    out = []
    for i in range(16 if tier == "quick" else 160):
        out.append(dict(q=[1, 2, 3, 1, 4, 2][i % 6], dim=[1, 2, 3, 1, 5][i % 5], theta=["zero", "positive"][int(i % 3 == 2)], K=40, x64=bool(i % 4 != 3), mode="eager" if i % 5 == 4 else "jv"))
    for i, (q, dim, th) in enumerate([(5, 2, "zero"), (6, 1, "zero"), (3, 7, "zero"), (0, 3, "zero"), (4, 6, "zero"), (1, 12, "zero"), (2, 4, "negative"), (1, 2, "negative"), (3, 3, "negative"), (5, 2, "positive"), (0, 2, "positive"), (2, 6, "positive")]):
        out.append(dict(q=q, dim=dim, theta=th, K=20, x64=True, mode="jv" if i % 4 else "eager"))
    return out


def run(case, mon):
    import jax
    import jax.numpy as jnp
    from bayesian_sde_solver.ode_solvers.probnum import IOUP_transition_function as ioup
    rng = np.random.default_rng(case["seed"])
    q, dim = case["q"], case["dim"]
    K = 4 if case["mode"] == "eager" else case["K"]
    ty = np.float64 if case["x64"] else np.float32
    dt = np.exp(rng.uniform(np.log(1e-4), np.log(5.0), size=K))
    ds = dt * np.exp(rng.normal(size=K))
    sg = np.exp(rng.normal(size=K) * 1.5)
    th = np.zeros(K) if case["theta"] == "zero" else np.exp(rng.normal(size=K))
    if case["theta"] == "negative":  # an explosive process is a linear SDE as well
        th = -th
        dt, ds = np.minimum(dt, 1.5 / -th), np.minimum(ds, 1.5 / -th)  # growth beyond exp(3) says nothing more
    if case["theta"] != "zero":
        dt = np.minimum(dt, 3.0)
    fn = lambda th, sg, dt: ioup(theta=th, sigma=sg, q=q, dt=dt, dim=dim)
    if case["mode"] == "eager":
        call = lambda dt: [np.stack(v) for v in zip(*[[np.asarray(a) for a in fn(float(th[i]), float(sg[i]), float(dt[i]))] for i in range(K)])]
    else:
        prog = jax.jit(jax.vmap(fn))
        call = lambda dt: [np.asarray(v) for v in prog(*(jnp.asarray(a, ty) for a in (th, sg, dt)))]
    xi, Q, A = call(dt)
    n = q + 1
    mon.true("shapes", xi.shape == (K, dim * n) and Q.shape == (K, dim * n, dim * n) and A.shape == (K, dim * n, dim * n), got=[list(xi.shape), list(Q.shape), list(A.shape)])
    r = 1e-9 if case["x64"] else 2e-4
    for i in range(K):
        key = "q=%d" % q
        D = np.tile([dt[i] ** (q - j) for j in range(n)], dim)  # natural scale of each state
        mon.equal("mean-increment-zero", xi[i], np.zeros(dim * n, ty), key=key)
        F = np.diag(np.ones(q), 1)
        F[-1, -1] = -th[i]
        wA = np.kron(np.eye(dim), refs.expm(F * dt[i]))
        # A_ij scales like D_i / D_j
        S = np.outer(D, 1 / D)
        mon.close("transition", A[i] / S, wA / S, rtol=r, atol=r, key=key)
        mon.true("blocks-independent", np.all(A[i][np.kron(np.eye(dim), np.ones((n, n))) == 0] == 0) and np.all(Q[i][np.kron(np.eye(dim), np.ones((n, n))) == 0] == 0))
        SQ = np.outer(D, D) * dt[i] * sg[i] ** 2
        if th[i] == 0:
            _, wQ, _ = refs.ibm(q, dt[i], dim, sg[i])
            mon.close("covariance", Q[i] / SQ, wQ / SQ, rtol=r, atol=0, key=key)
            L = np.zeros((n, 1))
            L[-1] = sg[i]
            _, vQ, _ = refs.lsde(F, np.zeros(n), L, dt[i])
            mon.close("covariance-of-the-sde", Q[i] / SQ, np.kron(np.eye(dim), vQ) / SQ, rtol=max(r, 1e-8), atol=max(r, 1e-8), key=key)
        else:
            L = np.zeros((n, 1))
            L[-1] = sg[i]
            _, vQ, _ = refs.lsde(F, np.zeros(n), L, min(dt[i], 3.0))
            x = abs(th[i]) * dt[i]
            nz = np.kron(np.eye(dim), vQ) / SQ
            # relative error at most proportional to theta dt (its exact leading coefficient is below 2)
            if x < .3:
                mon.close("covariance-leading-order", Q[i] / SQ, nz, rtol=3 * x + max(r, 1e-8), atol=max(r, 1e-8), key=key)
            mon.count("ou")
        mon.count("priors")
        mon.ev([q, dim], dt[i], sg[i], th[i])
    # semigroup
    xs, Qs, As = call(ds)
    xt, Qt, At = call(dt + ds)
    for i in range(K):
        D = np.tile([(dt[i] + ds[i]) ** (q - j) for j in range(n)], dim)
        S = np.outer(D, 1 / D)
        mon.close("semigroup-transition", (As[i].astype(float) @ A[i]) / S, At[i] / S, rtol=0, atol=r * 30)
        if th[i] == 0:
            SQ = np.outer(D, D) * (dt[i] + ds[i]) * sg[i] ** 2
            mon.close("semigroup-covariance", (As[i].astype(float) @ Q[i] @ As[i].T + Qs[i]) / SQ, Qt[i] / SQ, rtol=0, atol=r * 30)
            mon.count("semigroups")
    mon.sample(dict(q=q, dim=dim, dt=dt[0], sigma=sg[0], theta=th[0], Q=Q[0].tolist()))
