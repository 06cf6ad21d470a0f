"""C11: the extended Kalman filter engine."""
import numpy as np

from vlib import refs

RULE = ("a case is a batch of filter runs on random models (nx, ny, N, singular/regular P0, Q, R, both forms, with/without uncertainty output); compared to a textbook recursion and, for affine observations, "
        "to dense conditioning of the joint Gaussian; non-trivial: gain non-zero")
REQUIRE = {"filters": 250, "batch_posteriors": 80, "sqrt_filters": 100, "residuals": 80, "nonlinear": 80}
ASSUMPTIONS = ["innovation covariance non-singular"]


def cases(tier, rng):
    out = []
    dims = [(2, 1), (4, 2), (1, 1), (3, 3), (6, 3), (5, 1), (8, 2)]
    for i in range(32 if tier == "quick" else 320):
        out.append(dict(nx=dims[i % 7][0], ny=dims[i % 7][1], N=int([1, 2, 5, 15][(i // 7 + i) % 4]), obs=["affine", "nonlinear"][i % 2], sqrt=bool((i // 2) % 2), uc=bool((i // 4) % 2),
                        P0=["full", "zero", "rank1", "full"][(i // 3) % 4], Q=["full", "rank", "full"][(i // 5) % 3], R=["full", "zero", "full", "diag"][i % 4],
                        root=["chol", "any", "eig"][i % 3], K=12, x64=bool(i % 6 != 5), mode="eager" if i % 9 == 8 else "jv"))
    wide = [(12, 6, 4, 1.0, 1.0), (10, 10, 3, 1.0, 1.0), (9, 1, 40, 1.0, 1.0), (4, 2, 150, 1.0, 1.0), (4, 2, 5, 1e-12, 1.0), (6, 3, 5, 1e-16, 1.0), (2, 1, 5, 1e10, 1.0),
            (4, 2, 4, 1.0, 1e-5), (4, 2, 4, 1e-8, 1e4), (3, 3, 6, 1e-10, 1e-3), (1, 5, 3, 1.0, 1.0), (2, 4, 3, 1.0, 1.0), (5, 2, 33, 1e-6, 1.0)]
    for r in range(1 if tier == "quick" else 8):
        for i, (nx, ny, N, cs, hs) in enumerate(wide):
            for sq in (True, False):
                out.append(dict(nx=nx, ny=ny, N=N, obs=["affine", "nonlinear"][(i + r + sq) % 2] if cs <= 1 and N < 30 else "affine", sqrt=sq, uc=bool((i + r) % 3), P0=["full", "rank1", "zero"][(i + r) % 3], Q="full",
                                R="full" if ny > nx or N > 30 or (i + r) % 2 else "zero", root=["chol", "any", "eig"][(i + r) % 3], K=4, x64=True, mode="jv", cs=cs, hs=hs))
    return out


def rand_cov(rng, n, kind):
    if kind == "zero":
        return np.zeros((n, n)), np.zeros((n, n))
    r = 1 if kind == "rank1" else (max(1, n - 1) if kind == "rank" else n)
    B = np.zeros((n, n))
    B[:, :r] = rng.normal(size=(n, r))
    if kind == "diag":
        B = np.diag(np.exp(rng.normal(size=n)))
    if kind == "full":
        B += .5 * np.eye(n)
    return B @ B.T, B


def batch_posterior(m0, P0, A, Q, xi, R, H, cs):
    """condition x_N on H x_k + c_k + v_k = 0, k=1..N, by dense Gaussian conditioning"""
    n, N = len(m0), len(cs)
    ny = H.shape[0]
    # x_k = A^k x0 + sum_j A^(k-j) (xi + w_j)
    G = np.zeros((N, n, n * (N + 1)))
    mean = np.zeros((N, n))
    T = np.zeros((n, n * (N + 1)))
    T[:, :n] = np.eye(n)
    m = m0
    for k in range(N):
        T = A @ T
        T[:, n * (k + 1):n * (k + 2)] += np.eye(n)
        m = A @ m + xi
        G[k], mean[k] = T, m
    C = np.zeros((n * (N + 1),) * 2)
    C[:n, :n] = P0
    for k in range(N):
        C[n * (k + 1):n * (k + 2), n * (k + 1):n * (k + 2)] = Q
    Z = np.concatenate([H @ G[k] for k in range(N)])
    zm = np.concatenate([H @ mean[k] + cs[k] for k in range(N)])
    S = Z @ C @ Z.T + np.kron(np.eye(N), R)
    X = G[-1] @ C
    K = np.linalg.solve(S, Z @ X.T).T
    return mean[-1] - K @ zm, G[-1] @ C @ G[-1].T - K @ S @ K.T, np.linalg.cond(S)


def run(case, mon):
    import jax
    import jax.numpy as jnp
    from bayesian_sde_solver.ode_solvers.probnum import ekf
    rng = np.random.default_rng(case["seed"])
    nx, ny, N, K = case["nx"], case["ny"], case["N"], case["K"]
    K = 1 if case["mode"] == "eager" else K
    ty = np.float64 if case["x64"] else np.float32
    Rk = case["R"]
    Qk = case["Q"]
    if Rk == "zero":
        Qk = "full"  # keeps the innovation covariance regular
    if not case["x64"]:
        Rk, Qk = "full", "full"
    p = []
    for _ in range(K):
        A = rng.normal(size=(nx, nx)) / np.sqrt(nx)
        P0, L0 = rand_cov(rng, nx, case["P0"])
        Q, LQ = rand_cov(rng, nx, Qk)
        R, LR = rand_cov(rng, ny, Rk)
        if case["root"] == "chol":
            ch = lambda M, L: np.linalg.cholesky(M) if np.linalg.matrix_rank(M) == len(M) else L
            L0, LQ, LR = ch(P0, L0), ch(Q, LQ), ch(R, LR)
        elif case["root"] == "eig":
            def eg(M, L):
                w, v = np.linalg.eigh(M)
                return v * np.sqrt(np.clip(w, 0, None))
            L0, LQ, LR = eg(P0, L0), eg(Q, LQ), eg(R, LR)
        p.append(dict(A=A, xi=rng.normal(size=nx), m0=rng.normal(size=nx), P0=P0, L0=L0, Q=Q, LQ=LQ, R=R, LR=LR, H=rng.normal(size=(ny, nx)) * .8,
                      V=rng.normal(size=(ny, ny)) * .7, U=rng.normal(size=(ny, nx)) * .6, w=rng.normal(size=ny), c=rng.normal(size=(N, ny)), ts=np.sort(rng.uniform(0, 3, size=N))))
    B = {k: np.stack([q[k] for q in p]).astype(ty) for k in p[0]}
    cs, hs = case.get("cs", 1.0), case.get("hs", 1.0)
    for k in ("P0", "Q", "R", "L0", "LQ", "LR"):
        B[k] = B[k] * (cs if k[0] != "L" else np.sqrt(cs)) * ((hs if k[0] == "L" else hs * hs) if k.endswith("R") else 1)
    for k in ("H", "V", "c"):
        B[k] = B[k] * (hs if k != "c" else hs * min(1, np.sqrt(cs)))
    nl = 0.0 if case["obs"] == "affine" else 1.0

    def h(xp, q, x, t, c):
        return q["H"] @ x + c + nl * (q["V"] @ xp.sin(q["U"] @ x + q["w"] * t))

    def jac(q, x, t, c):
        return q["H"] + nl * q["V"] @ (np.cos(q["U"] @ x + q["w"] * t)[:, None] * q["U"])

    sq = case["sqrt"]

    def go(q):
        return ekf(init=(q["m0"], q["L0"] if sq else q["P0"]), observation_function=lambda x, t, c: h(jnp, q, x, t, c), A=q["A"],
                   Q_or_cholQ=q["LQ"] if sq else q["Q"], xi=q["xi"], R_or_cholR=q["LR"] if sq else q["R"], params=(q["ts"], q["c"]),
                   lower_sqrt=sq, return_UC=case["uc"])

    if case["mode"] == "eager":
        out = jax.tree_util.tree_map(lambda a: np.asarray(a)[None], go({k: jnp.asarray(v[0]) for k, v in B.items()}))
    else:
        out = jax.tree_util.tree_map(np.asarray, jax.jit(jax.vmap(go))(B))
    if case["uc"]:
        (m, P), *ex = out
        S = [e for e in ex if e.ndim == 3]
        z = [e for e in ex if e.ndim == 2]
        mon.true("uncertainty-outputs", len(S) == 1 and len(z) == 1 and len(ex) == 2, shapes=[list(e.shape) for e in ex])
    else:
        m, P = out
    for i in range(K):
        q = {k: v[i].astype(float) for k, v in B.items()}
        if sq:  # the model actually fed to the filter
            q["P0"], q["Q"], q["R"] = (L @ L.T for L in (q["L0"], q["LQ"], q["LR"]))
        ref = lambda: refs.ekf(q["m0"], q["P0"], q["A"], q["Q"], q["xi"], q["R"], lambda x, k: h(np, q, x, q["ts"][k], q["c"][k]),
                               lambda x, k: jac(q, x, q["ts"][k], q["c"][k]), range(N))
        (mm, PP, zz, SS), amp = refs.amplification(ref)
        if max(amp) > (1e4 if case["x64"] else 30) or np.linalg.cond(SS) > (1e7 if case["x64"] else 300):
            mon.count("skipped_ill_conditioned")
            continue
        tol = (1e-10 if case["x64"] else 1e-4) * (20 + max(amp))
        got = P[i] @ P[i].T if sq else P[i]
        ms = 1 + np.max(np.abs(mm))
        form = "sqrt" if sq else "full"
        mon.true("shapes", m[i].shape == (nx,) and P[i].shape == (nx, nx), got=[list(m[i].shape), list(P[i].shape)])
        mon.close("mean", m[i], mm, scale=ms, rtol=tol, atol=0, key=form)
        sP = 1e-3 * cs + max(np.max(np.abs(PP)), np.max(np.abs(q["Q"])))
        mon.close("covariance", got, PP, scale=sP, rtol=tol, atol=0, key=form)
        if case["uc"] and S and z:
            mon.close("residual", z[0][i], zz, scale=hs * ms + np.max(np.abs(zz)), rtol=tol, atol=0, key=form)
            mon.close("residual-covariance", S[0][i], SS, scale=np.max(np.abs(SS)), rtol=tol, atol=0, key=form)
            mon.count("residuals")
        if nl == 0:
            bm, bP, cd = batch_posterior(q["m0"], q["P0"], q["A"], q["Q"], q["xi"], q["R"], q["H"], q["c"])
            if cd < (1e8 if case["x64"] else 1e4):
                mon.close("exact-posterior-mean", m[i], bm, scale=ms, rtol=max(tol, 1e-7), atol=0, key=form)
                mon.close("exact-posterior-covariance", got, bP, scale=sP, rtol=max(tol, 1e-7), atol=0, key=form)
                mon.count("batch_posteriors")
        else:
            mon.count("nonlinear")
        mon.count("filters")
        mon.count("sqrt_filters", sq)
        mon.ev(m[i], P[i])
    mon.sample(dict(case={k: case[k] for k in ("nx", "ny", "N", "obs", "sqrt", "uc", "P0", "Q", "R")}, mean=m[0].tolist()))
