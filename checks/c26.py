"""C26: strong convergence on shared Brownian paths, and one-step moments of linear problems."""
import numpy as np

from vlib import refs

RULE = ("a case runs one scheme over successively refined steps on hundreds of Brownian paths, each path shared with an exact (or much finer) solution computed outside the code under test, and monitors the errors' decay; one-step cases feed "
        "unit Brownian coefficients to linear problems and read off the step's exact mean and covariance; non-trivial: multiplicative noise or a non-zero drift")
REQUIRE = {"paths": 2000, "rates": 20, "parabola": 8, "em": 6, "conversions": 4, "one_step": 12, "time_dependent": 6, "several_noises": 6}
ASSUMPTIONS = ["a rate is read from a range of steps, with a margin of a quarter order"]


def cases(tier, rng):
    out = []
    reps = 1 if tier == "quick" else 6
    for r in range(reps):
        for i, integ in enumerate(["euler", "ekf0", "ekf1", "ekf0_2", "ekf1_2", "ekf1s", "ekf0s"]):
            for prob in (["doss", "gbm"][(i + r) % 2], "doss") if i < 1 else (["doss", "gbm"][(i + r) % 2],):
                out.append(dict(kind="parabola", integ=integ, prob=prob, d=[2, 3, 1][(i + r) % 3], m=[2, 1, 3][(i + r // 2) % 3], form=["strat", "ito"][(i // 2 + r) % 2],
                                keyed=bool((i + r) % 2), n=200 if tier == "quick" else 600, levels=([16, 40, 100] if integ == "ekf1_2" else [6, 16, 40]) if tier == "quick" else ([16, 32, 64, 128] if integ == "ekf1_2" else [5, 10, 25, 60]), cost=4))
        out.append(dict(kind="parabola", integ="euler", prob="general", d=2, m=2, form="strat", keyed=False, n=300, levels=[4, 16, 64], cost=4))
        for i, integ in enumerate(["ekf1", "ekf0", "ekf1_2", "ekf1s"] if r % 2 == 0 else ["ekf0s", "ekf0_2", "ekf1", "ekf0"]):
            # additive noise, linear field: the parabola carries the time integral of the path exactly
            out.append(dict(kind="parabola", integ=integ, prob="additive", d=[2, 3, 1, 2][i], m=[2, 1, 3, 3][i], form="strat", keyed=False, n=200 if tier == "quick" else 600, levels=[3, 6, 12, 24], order=2.0, cost=2))
        for i in range(6):
            out.append(dict(kind="em", prob=["doss", "additive", "gbm"][i % 3], d=[2, 1, 3][(i + r) % 3], m=[1, 2, 3][(i + r // 2) % 3], standard=bool(i % 2), n=300 if tier == "quick" else 1000))
        for i in range(5):
            out.append(dict(kind="one", scheme=["euler", "ekf0", "ekf1", "em", "ekf1_2"][i], d=[2, 3, 1, 2, 2][i], m=[1, 2, 1, 3, 2][i], draws=3))
        out.append(dict(kind="law", scheme="diag15", n=200000))
        out.append(dict(kind="law", scheme="hypo15", n=200000))
    return out


def run(case, mon):
    return dict(parabola=parabola, em=em, one=one, law=law)[case["kind"]](case, mon)


# -- problems ---------------------------------------------------------
def draw(rng, prob, d, m):
    """Y' = A Y + a0 + a1 cos t + B W' ; X = phi(Y)"""
    p = dict(A=rng.normal(size=(d, d)) * .4 - .3 * np.eye(d), a0=rng.normal(size=d) * .5, a1=rng.normal(size=d) * .8, B=rng.normal(size=(d, m)) * .6, y0=rng.normal(size=d) * .5)
    p["C"] = np.tril(rng.normal(size=(d, d)), -1) * .8
    if prob in ("additive", "gbm"):
        p["C"] = 0 * p["C"]
    if prob == "gbm":  # X_i = exp(Y_i): linear multiplicative noise, shared Brownian motions
        p["A"] = 0 * p["A"]
        p["B"] *= .5 / np.sqrt(m)
    return p


def phi(xp, prob, p, y):
    """triangular diffeomorphism: x_i = y_i + sum_{j<i} C_ij sin(y_j)"""
    if prob == "gbm":
        return xp.exp(y)
    return y + xp.sin(y) @ p["C"].T


def phi_inv(jnp, p, x):
    ys = []
    for i in range(x.shape[0]):
        y = x[i]
        for j in range(i):
            y = y - p["C"][i, j] * jnp.sin(ys[j])
        ys.append(y)
    return jnp.stack(ys)


def stratonovich_fields(jnp, prob, p):
    if prob == "gbm":
        return (lambda x, t: x * (p["a0"] + p["a1"] * jnp.cos(t))), (lambda x, t: x[:, None] * p["B"])

    def J(y):
        return jnp.eye(y.shape[0]) + p["C"] * jnp.cos(y)[None, :]

    def drift(x, t):
        y = phi_inv(jnp, p, x)
        return J(y) @ (p["A"] @ y + p["a0"] + p["a1"] * jnp.cos(t))

    def sigma(x, t):
        return J(phi_inv(jnp, p, x)) @ p["B"]
    return drift, sigma


def ou_path(p, y0, t0, dt, inc, area):
    """Y over fine cells given increments and (1/dt) * (integral of W - W_left - inc/2) per cell: (n, cells, m) -> (n, d)"""
    A = p["A"]
    E, E2 = np.asarray(refs.expm(A * dt), float), np.asarray(refs.expm(A * dt / 2), float)
    Y = np.array(y0, dtype=float)
    g = lambda t: p["a0"] + p["a1"] * np.cos(t)
    for k in range(inc.shape[1]):
        t = t0 + k * dt
        force = dt / 6 * (E @ g(t) + 4 * E2 @ g(t + dt / 2) + g(t + dt))
        dW, IW = inc[:, k], dt * (.5 * inc[:, k] + area[:, k])
        Y = Y @ E.T + force + dW @ p["B"].T + IW @ (A @ p["B"]).T
    return Y


def rate(mon, name, hs, errs, order, key, slack=.35, **kw):
    """least-squares slope of log error over log step"""
    hs, errs = np.asarray(hs), np.asarray(errs)
    mon.finite("errors-finite", errs, key=key)
    mon.count("rates")
    if np.all(errs < 1e-9):
        return
    sl = np.polyfit(np.log(hs), np.log(np.maximum(errs, 1e-14)), 1)[0]
    mon.bound(name, order - slack, float(sl) if sl > 0 else 1e-12, key=key, hs=hs, errs=errs, slope=float(sl), **kw)


def integrator(integ, substeps, keyed):
    """-> (ode_int, start(x))"""
    import jax.numpy as jnp
    from bayesian_sde_solver.ode_solvers import ekf0, ekf0_2, ekf1, ekf1_2, euler
    if integ == "euler":
        return (lambda key, init, vector_field, T: euler(init, vector_field, T / substeps, substeps)), lambda x: x
    sq = integ.endswith("s")
    name = integ.rstrip("s")
    solver = dict(ekf0=ekf0, ekf1=ekf1, ekf0_2=ekf0_2, ekf1_2=ekf1_2)[name]
    start = (lambda x: (x, x, jnp.zeros((x.shape[0],) * 2))) if name.endswith("_2") else (lambda x: x)
    return (lambda key, init, vector_field, T: solver(key if keyed else None, init, vector_field, T / substeps, substeps, sqrt=sq)), start


def parabola(case, mon):
    import jax
    import jax.numpy as jnp
    from bayesian_sde_solver.foster_polynomial import get_approx_fine
    from bayesian_sde_solver.ito_stratonovich import to_ito, to_stratonovich
    from bayesian_sde_solver.sde_solver import sde_solver
    rng = np.random.default_rng(case["seed"])
    prob, d, m, n, integ = case["prob"], case["d"], case["m"], case["n"], case["integ"]
    key = "%s %s" % (integ, prob)
    if prob == "general":
        p = draw(rng, "doss", d, m)
        W = rng.normal(size=(d, d))
        drift = lambda x, t: -x + jnp.cos(t)
        S0, S1 = rng.normal(size=(d, m)) * .4, rng.normal(size=(d, m, d)) * .4
        sigma = lambda x, t: S0 + S1 @ jnp.sin(x)
        x0 = p["y0"]
    else:
        p = draw(rng, prob, d, m)
        drift, sigma = stratonovich_fields(jnp, prob, p)
        x0 = phi(np, prob, p, p["y0"])
        if case["form"] == "ito":  # the user states the Ito equation and converts it
            f_ito = to_ito(drift, sigma)[0]
            drift = to_stratonovich(f_ito, sigma)[0]
            mon.count("conversions")
    T = 1.0
    keys = jax.random.split(jax.random.PRNGKey(int(rng.integers(2 ** 31))), n)
    hs, errs = [], []
    for N in case["levels"]:
        M = max(4, int(2 * N)) if integ == "euler" else max(8, N)
        M = 64 if "order" in case else M
        fine = max(2, 256 // N) if prob != "general" else 4096 // N
        ode_int, start = integrator(integ, M, case["keyed"])

        def go(k):
            ts, traj, a, b, fa, fb = sde_solver(k, drift, sigma, start(jnp.asarray(x0)), lambda: get_approx_fine(dim=m, N=fine), T / N, N, ode_int)
            return (traj[1] if isinstance(traj, tuple) else traj)[-1], fa, fb
        XT, fa, fb = [np.asarray(v) for v in jax.jit(jax.vmap(go))(keys)]
        fa, fb = fa.reshape(n, N * fine, m), fb.reshape(n, N * fine, m)
        dt = T / (N * fine)
        if prob == "general":
            X = np.broadcast_to(x0, (n, d)).copy()
            f = lambda x, t: -x + np.cos(t)
            s = lambda x: S0 + np.einsum("iml,nl->nim", S1, np.sin(x))
            for k in range(N * fine):
                dW = fa[:, k]
                a0 = f(X, k * dt) * dt + np.einsum("nim,nm->ni", s(X), dW)
                a1 = f(X + a0, (k + 1) * dt) * dt + np.einsum("nim,nm->ni", s(X + a0), dW)
                X = X + (a0 + a1) / 2
            want = X
        else:
            want = phi(np, prob, p, ou_path(p, np.broadcast_to(p["y0"], (n, d)), 0., dt, fa, fb))
        e = (XT - want) / (want if prob == "gbm" else 1.0)
        hs.append(T / N)
        errs.append(float(np.sqrt(np.mean(np.sum(e ** 2, axis=1)))))
        mon.count("paths", n)
        mon.ev(x0, XT[:2], N, n=n)
    rate(mon, "parabola-strong-order", hs, errs, .5 if prob == "general" else case.get("order", 1.0), key, slack=.3 if prob == "general" else .4)
    ref = np.log(want) if prob == "gbm" else want
    spread = float(np.sqrt(np.mean(np.sum((ref - ref.mean(axis=0)) ** 2, axis=1))))
    mon.bound("parabola-error-at-finest-step", errs[-1], .25 * spread + 1e-3, key=key, errs=errs)
    mon.count("parabola")
    mon.count("time_dependent")
    mon.count("several_noises", m > 1)
    mon.sample(dict(kind="parabola", integ=integ, prob=prob, d=d, m=m, steps=hs, rms_errors=errs))


def em(case, mon):
    import jax
    import jax.numpy as jnp
    from bayesian_sde_solver.ito_stratonovich import to_ito
    from bayesian_sde_solver.sde_solvers import euler_maruyama_pathwise
    rng = np.random.default_rng(case["seed"])
    prob, d, m, n = case["prob"], case["d"], case["m"], case["n"]
    p = draw(rng, prob, d, m)
    drift, sigma = stratonovich_fields(jnp, prob, p)
    if prob != "additive":
        drift, sigma = to_ito(drift, sigma)
        mon.count("conversions")
    x0 = phi(np, prob, p, p["y0"])
    T, fine = 1.0, 4096
    inc = rng.normal(size=(n, fine, m)) * np.sqrt(T / fine)
    want = phi(np, prob, p, ou_path(p, np.broadcast_to(p["y0"], (n, d)), 0., T / fine, inc, np.zeros_like(inc)))
    hs, errs = [], []
    for N in (8, 32, 128, 512):
        dW = inc.reshape(n, N, fine // N, m).sum(axis=2)
        feed = dW / np.sqrt(T / N) if case["standard"] else dW
        ts, X = jax.jit(jax.vmap(lambda w: euler_maruyama_pathwise(w, jnp.asarray(x0), drift, sigma, T / N, N, standard=case["standard"])))(jnp.asarray(feed))
        XT = np.asarray(X)[:, -1]
        hs.append(T / N)
        errs.append(float(np.sqrt(np.mean(np.sum(((XT - want) / (want if prob == "gbm" else 1.0)) ** 2, axis=1)))))
        mon.count("paths", n)
        mon.ev(x0, XT[:2], N, n=n)
    rate(mon, "em-strong-order", hs, errs, 1.0 if prob == "additive" else .5, prob, slack=.2)
    ref = np.log(want) if prob == "gbm" else want
    spread = float(np.sqrt(np.mean(np.sum((ref - ref.mean(axis=0)) ** 2, axis=1))))
    mon.bound("em-error-at-finest-step", errs[-1], .2 * spread + 1e-3, key=prob, errs=errs)
    mon.count("em")
    mon.count("time_dependent")
    mon.count("several_noises", m > 1)
    mon.sample(dict(kind="em", prob=prob, d=d, m=m, steps=hs, rms_errors=errs))


def exact_linear(A, B, c, x0, h):
    """mean and covariance after h of dX = (A X + c) dt + B dW"""
    d = len(x0)
    Z = np.zeros((d + 1, d + 1))
    Z[:d, :d], Z[:d, d] = A, c
    E = np.asarray(refs.expm(Z * h), float)
    V = np.zeros((2 * d, 2 * d))
    V[:d, :d], V[:d, d:], V[d:, d:] = -A, B @ B.T, A.T
    G = np.asarray(refs.expm(V * h), float)
    return E[:d, :d] @ x0 + E[:d, d], G[d:, d:].T @ G[:d, d:]


def one(case, mon):
    """read the step of a linear problem as an affine map of its Brownian coefficients"""
    import jax
    import jax.numpy as jnp
    from bayesian_sde_solver.foster_polynomial import get_approx
    from bayesian_sde_solver.sde_solver import sde_solver
    from bayesian_sde_solver.sde_solvers import euler_maruyama_pathwise
    rng = np.random.default_rng(case["seed"])
    scheme, d, m = case["scheme"], case["d"], case["m"]
    hs = [.2, .1, .05, .025]
    for _ in range(case["draws"]):
        A, B, c, x0 = rng.normal(size=(d, d)), rng.normal(size=(d, m)), rng.normal(size=d), rng.normal(size=d)
        f, s = (lambda x, t: jnp.asarray(A) @ x + c), (lambda x, t: jnp.asarray(B))
        em_, ev_ = [], []
        sizes = 1 + np.linalg.norm(A, 2)
        for h in hs:
            if scheme == "em":
                step = lambda w: euler_maruyama_pathwise(w[None], jnp.asarray(x0), f, s, h, 1)[1][1]
                scales = np.full(m, np.sqrt(h))
            else:
                M = 64
                ode_int, start = integrator(scheme, M, False)
                _, ev = get_approx(dim=m)

                def step(w):
                    out = sde_solver(jax.random.PRNGKey(0), f, s, start(jnp.asarray(x0)), lambda: (lambda key, dt: (w[:m], w[m:]), ev), h, 1, ode_int)[1]
                    return (out[1] if isinstance(out, tuple) else out)[1]
                scales = np.concatenate([np.full(m, np.sqrt(h)), np.full(m, np.sqrt(h / 2))])
            W = np.vstack([np.zeros(len(scales)), np.diag(scales), rng.normal(size=(2, len(scales))) * scales])
            R = np.asarray(jax.jit(jax.vmap(step))(jnp.asarray(W)))
            mean, cols = R[0], (R[1:1 + len(scales)] - R[0]).T
            lin = R[0] + W[-2:] @ (cols / scales).T
            mon.close("step-affine-in-noise", R[-2:], lin, rtol=1e-8, atol=1e-9, scale="max", key=scheme)
            wm, wV = exact_linear(A, B, c, x0, h)
            em_.append(np.max(np.abs(mean - wm)) / (np.linalg.norm(x0) + np.linalg.norm(c)))
            ev_.append(np.max(np.abs(cols @ cols.T - wV)) / np.linalg.norm(B, 2) ** 2)
            a = sizes * h
            if scheme == "em":
                bm, bv = a ** 2 * np.exp(a), 2 * a * h * np.exp(2 * a)
            elif scheme == "euler":
                bm, bv = 2 * a ** 2 / 64 * np.exp(a), h * (6 * a / 64 * np.exp(2 * a) + a ** 4)
            else:
                bm, bv = 2 * a ** 2 / 64 * np.exp(a), h * (6 * a / 64 * np.exp(2 * a) + a ** 4)
            mon.bound("one-step-mean", em_[-1] / bm, 1.0, key=scheme, h=h)
            mon.bound("one-step-covariance", ev_[-1] / bv, 1.0, key=scheme, h=h)
        rate(mon, "one-step-mean-order", hs, em_, 2.0, scheme, slack=.4)
        if scheme == "em":
            rate(mon, "one-step-covariance-order", hs, ev_, 2.0, scheme, slack=.4)
        mon.count("one_step")
        mon.ev(A, B, scheme)
    mon.sample(dict(kind="one", scheme=scheme, d=d, m=m, steps=hs, mean_errors=em_, covariance_errors=ev_))


def law(case, mon):
    """one step of the 1.5 schemes on linear problems over many keys"""
    import jax
    import jax.numpy as jnp
    from bayesian_sde_solver.sde_solvers import diag_15_scheme, hypoelliptic_diffusion_15_scheme
    rng = np.random.default_rng(case["seed"])
    n = case["n"]
    for d in (1, 2, 3):
        if case["scheme"] == "hypo15" and d == 1:
            continue
        A, x0 = rng.normal(size=(d, d)), rng.normal(size=d)
        if case["scheme"] == "hypo15":
            A[0] = np.abs(A[0]) + .5
            B = np.zeros((d, d))
            B[1:, 1:] = rng.normal(size=(d - 1, d - 1)) * .3 + np.eye(d - 1)
            solver, cov_order = hypoelliptic_diffusion_15_scheme, 2
        else:
            B = np.diag(np.exp(rng.normal(size=d) * .4))
            solver, cov_order = diag_15_scheme, 3
        for h in (.3, .05):
            keys = jax.random.split(jax.random.PRNGKey(int(rng.integers(2 ** 31))), n)
            X = np.asarray(jax.jit(jax.vmap(lambda k: solver(k, jnp.asarray(x0), lambda x: jnp.asarray(A) @ x, lambda x: jnp.asarray(B), h, 1)[1][1]))(keys))
            wm, wV = exact_linear(A, B, np.zeros(d), x0, h)
            sd = np.sqrt(np.diag(wV))
            a = (1 + np.linalg.norm(A, 2)) * h
            mon.finite("finite", X, key=case["scheme"])
            # local orders: mean to h^3; covariance to h^3 (diagonal scheme) or leading order per entry (hypoelliptic)
            bias = a ** 3 / 3 * np.exp(a) * np.linalg.norm(x0)
            mon.bound("one-step-law-mean", np.max(np.abs(X.mean(axis=0) - wm) / (bias + 8 * sd * 1.3 / np.sqrt(n))), 1.0, key=case["scheme"], h=h)
            V = np.cov(X.T).reshape(d, d)
            se = np.sqrt((np.outer(np.diag(wV), np.diag(wV)) + wV ** 2) / n)
            nb = np.linalg.norm(B, 2) ** 2
            if case["scheme"] == "diag15":
                allow = nb * h * a ** 2 * np.exp(2 * a)
            else:
                e = np.ones((d, d))
                e[0, 1:], e[1:, 0], e[0, 0] = 2, 2, 3
                allow = nb * h * a ** e * np.exp(2 * a)
            mon.bound("one-step-law-covariance", np.max(np.abs(V - wV) / (allow + 8 * se)), 1.0, key=case["scheme"], h=h)
            mon.count("one_step")
            mon.count("draws", n)
        mon.ev(A, B, case["scheme"], n=n)
