"""C19: Matern and generic linear-SDE priors."""
import numpy as np
import scipy.linalg as sla

from vlib import refs

RULE = ("a case is a batch of prior evaluations: 'generic' with random drift, input and noise matrices, 'matern' with random smoothness, length, magnitude, step, dimension and both routes; compared with van Loan's matrix exponential "
        "and the stationary Lyapunov covariance; non-trivial: non-zero drift matrix")
REQUIRE = {"generic": 60, "matern": 120, "closed_form": 20, "mc_route": 40, "stationary": 80}
ASSUMPTIONS = ["scipy.linalg.expm / Lyapunov solver", "trapezoidal rule with the documented default resolution 10000, tolerance 1e-5"]


def cases(tier, rng):
    out = []
    for i in range(8 if tier == "quick" else 80):
        out.append(dict(kind="generic", n=[2, 1, 3, 4][i % 4], m=[1, 2, 1, 3][(i // 2) % 4], F=["stable", "unstable", "companion", "nilpotent"][i % 4], K=10, res=["default", 2000][i % 2]))
    for i, (n, m, f) in enumerate([(6, 2, "stable"), (5, 5, "companion"), (8, 1, "nilpotent"), (3, 3, "stiff"), (2, 2, "stiff"), (4, 2, "zero"), (3, 1, "long"), (2, 4, "tiny"), (2, 1, "slow"), (3, 2, "slow"), (2, 2, "slow")]):
        out.append(dict(kind="generic", n=n, m=m, F=f, K=6, res="default"))
    for i, (k, dim) in enumerate([(1, 6), (2, 5), (3, 2), (1, 9)]):
        out.append(dict(kind="matern", k=k, dim=dim, mc=bool(i % 2), K=6, x64=True, mode="jv"))
    for i in range(20 if tier == "quick" else 160):
        out.append(dict(kind="matern", k=[1, 2, 1, 3, 2][i % 5], dim=[1, 2, 3][i % 3], mc=bool((i // 2) % 2) if i % 5 in (0, 2) else bool(i % 2), K=10, x64=bool(i % 5 != 2 or i % 10 == 7), mode="eager" if i % 10 == 3 else "jv"))
    return out


def run(case, mon):
    return (generic if case["kind"] == "generic" else matern)(case, mon)


def generic(case, mon):
    import jax
    import jax.numpy as jnp
    from bayesian_sde_solver.ode_solvers.probnum import transition_function as tf
    rng = np.random.default_rng(case["seed"])
    n, m, K = case["n"], case["m"], case["K"]
    Fs = rng.normal(size=(K, n, n))
    if case["F"] == "stable":
        Fs = Fs - 2 * np.eye(n) * np.sqrt(n)
    elif case["F"] == "companion":
        C = np.zeros((K, n, n))
        C[:, :-1, 1:] = np.eye(n - 1)
        C[:, -1] = rng.normal(size=(K, n))
        Fs = C
    elif case["F"] == "nilpotent":
        Fs = np.triu(Fs, 1)
    elif case["F"] == "stiff":
        Fs = -np.einsum("kij,kj,klj->kil", np.linalg.qr(Fs)[0], np.exp(rng.uniform(0, np.log(40), size=(K, n))), np.linalg.qr(Fs)[0])
    elif case["F"] == "zero":
        Fs = 0 * Fs
    elif case["F"] == "long":
        Fs = Fs - 2.5 * np.eye(n) * np.sqrt(n)
    elif case["F"] == "slow":  # hardly any decay: the covariance grows over the whole of a long step
        Fs = .02 * Fs + [.3, 1.][n % 2] * (Fs - np.swapaxes(Fs, 1, 2)) / 2
    u, L = rng.normal(size=(K, n)), rng.normal(size=(K, n, m))
    h = np.exp(rng.uniform(np.log(.01), np.log(2.0), size=K))
    if case["F"] == "long":
        h = h * 5
    if case["F"] == "slow":
        h = np.exp(rng.uniform(np.log(3), np.log(30), size=K))
    if case["F"] == "tiny":
        h = h * 1e-4
    kw = {} if case["res"] == "default" else dict(n_linspace=case["res"])
    nl = 10000 if case["res"] == "default" else case["res"]
    prog = jax.jit(lambda F, u, L, h: tf(F, u, L, h, **kw))
    for i in range(K):
        xi, Q, A = map(np.asarray, prog(Fs[i], u[i], L[i], h[i]) if i else tf(jnp.asarray(Fs[i]), jnp.asarray(u[i]), jnp.asarray(L[i]), float(h[i]), **kw))
        wx, wQ, wA = refs.lsde(Fs[i], u[i], L[i], h[i])
        # leading error of the trapezoidal rule: (step^2 / 12) times the change of the integrand's derivative; twice that is allowed
        slope_x = lambda E: Fs[i] @ E @ u[i]
        slope_Q = lambda E: (lambda G: G + G.T)(Fs[i] @ E @ L[i] @ L[i].T @ E.T)
        ex, eQ = (2 * (h[i] / (nl - 1)) ** 2 / 12 * np.max(np.abs(g(wA) - g(np.eye(n)))) for g in (slope_x, slope_Q))
        key = case["F"]
        mon.close("transition", A, wA, rtol=1e-9, atol=0, scale=np.max(np.abs(wA)), key=key)
        mon.close("mean-increment", xi, wx, rtol=1e-9, atol=ex, scale=np.max(np.abs(wx)), key=key)
        mon.close("covariance", Q, wQ, rtol=1e-9, atol=eQ, scale=np.max(np.abs(wQ)), key=key)
        mon.count("generic")
        mon.ev(Fs[i], u[i], L[i], h[i])
    mon.sample(dict(F=Fs[0].tolist(), h=h[0], Q=Q.tolist()))


def matern(case, mon):
    import jax
    import jax.numpy as jnp
    from bayesian_sde_solver.ode_solvers.probnum import matern_transition_function as mt
    rng = np.random.default_rng(case["seed"])
    k, dim = case["k"], case["dim"]
    K = 3 if case["mode"] == "eager" else case["K"]
    ty = np.float64 if case["x64"] else np.float32
    mag, ln = np.exp(rng.normal(size=K)), np.exp(np.clip(rng.normal(size=K) * .7, -1.4, None))
    dt = np.exp(rng.uniform(np.log(3e-3), np.log(2.0), size=K)) * np.minimum(ln, 1.0)
    if case["x64"] and K >= 6:  # other units: slow processes of any size
        wide = slice(-2, None)
        scale = 10 ** rng.uniform(.5, 3, size=2)
        ln[wide], mag[wide], dt[wide] = ln[wide] * scale, mag[wide] * 10 ** rng.uniform(-4, 4, size=2), dt[wide] * [1, scale[1]]
    kw = dict(mc=True) if case["mc"] else {}
    fn = lambda a, b, c: mt(k, a, b, c, dim, **kw)
    prog = fn if case["mode"] == "eager" else jax.jit(fn)
    n = k + 1
    closed = k == 1 and not case["mc"]
    for i in range(K):
        xi, Q, A = map(np.asarray, prog(*(jnp.asarray(v, ty) for v in (mag[i], ln[i], dt[i]))))
        mag_, ln_, dt_ = (float(ty(v)) for v in (mag[i], ln[i], dt[i]))
        wx, wQ, wA = refs.matern(k, mag_, ln_, dt_, dim)
        lam = np.sqrt(2 * k + 1) / ln_
        key = "k=%d %s" % (k, "closed" if closed else "numeric")
        mon.true("shapes", xi.shape == wx.shape and Q.shape == wQ.shape and A.shape == wA.shape)
        r = (1e-8 if closed else 1e-5) if case["x64"] else (2e-4 if closed else 3e-3)
        D = np.tile([dt_ ** (k - j) for j in range(n)], dim)
        S = np.outer(D, 1 / D)
        rA = (1e-8 if k < 3 else 1e-5) if case["x64"] else 1e-3  # the matrix exponential of the badly scaled companion matrix loses digits
        mon.close("transition", A / S, wA / S, rtol=rA, atol=rA * max(1, lam * dt_) ** k, key=key)
        SQ = np.sqrt(np.outer(np.diag(wQ), np.diag(wQ)))
        mon.close("covariance", Q / SQ, wQ / SQ, rtol=0, atol=r, key=key)
        mon.close("mean-increment-zero", xi, wx, rtol=0, atol=1e-14, key=key)
        # stationary covariance of the process stays invariant
        F = np.zeros((n, n))
        F[:-1, 1:] = np.eye(k)
        from math import comb
        F[-1] = [-comb(n, j) * lam ** (n - j) for j in range(n)]
        L = np.zeros((n, n))
        L[-1, -1] = mag_ ** 2
        P = np.kron(np.eye(dim), sla.solve_continuous_lyapunov(F, -L))
        sp = np.sqrt(np.outer(np.diag(P), np.diag(P)))
        mon.close("stationary-covariance", (A.astype(float) @ P @ A.T + Q) / sp, P / sp, rtol=0, atol=1e-5 if case["x64"] else 3e-3, key=key)
        mon.count("stationary")
        mon.count("matern")
        mon.count("closed_form", closed)
        mon.count("mc_route", not closed)
        mon.ev([k, dim], mag[i], ln[i], dt[i])
    if k == 1 and case["x64"]:
        a = [np.asarray(v) for v in mt(1, mag[0], ln[0], dt[0], dim)]
        b = [np.asarray(v) for v in mt(1, mag[0], ln[0], dt[0], dim, mc=True)]
        for u, v, nm in zip(a, b, ("mean-increment", "covariance", "transition")):
            mon.close("routes-agree:" + nm, v, u, rtol=1e-5, atol=1e-12, scale=np.maximum(np.abs(u), 1e-6 * np.max(np.abs(u))))
    mon.sample(dict(k=k, dim=dim, magnitude=mag[0], length=ln[0], dt=dt[0], Q=Q.tolist()))
