"""C24: the catalogue of initial value problems."""
import numpy as np

RULE = ("a case takes one catalogued problem, evaluates its drift and diffusion at random states and times, compares them with its equation (parameters fitted, structure fixed), and its stated moments with moments computed from the very drift and "
        "diffusion it returns (exact linear moments, moment equations, or repeated application of the generator); the random linear problem is sampled over many keys; non-trivial: at least one state away from the initial one or one positive time")
REQUIRE = {"problems": 10, "equation_points": 800, "moment_times": 60, "generator_terms": 12, "random_keys": 1500, "square_pairs": 60}
ASSUMPTIONS = ["problem parameters (rates, noise levels, initial states) are the problem's own: fitted, not prescribed", "fhn states its variance to leading order per entry, and to second order for the recovery variable"]

TWO_ARG = ["fhn", "square_matrix_fhn", "ibm", "square_matrix_ibm", "double_ibm", "harmonic_oscillator", "gbm"]
ONE_ARG = ["synaptic_conductance_reduced", "synaptic_conductance", "harmonic_oscillator_square"]


def cases(tier, rng):
    out = [dict(kind="problem", name=n, x64=x, pts=60 if tier == "quick" else 400) for x in (True, False) for n in TWO_ARG + ONE_ARG]
    out += [dict(kind="random", dim=d, n=2000 if tier == "quick" else 40000, std=s) for d in (1, 2, 3, 4, 5, 6, 8, 10, 13) for s in (False, True)]
    return out


def x64(case):
    return case.get("x64", True)


def run(case, mon):
    return (random_linear if case["kind"] == "random" else problem)(case, mon)


def coeffs(fn, deg, scale):
    """Taylor coefficients of a matrix function of time by a Chebyshev fit of higher degree on [0, scale]"""
    n = deg + 8
    ts = scale * (1 - np.cos(np.pi * (np.arange(n) + .5) / n)) / 2
    v = np.array([np.asarray(fn(t), dtype=float) for t in ts])
    sh = v.shape[1:]
    c = np.linalg.solve(np.vander(ts / scale, n, increasing=True), v.reshape(n, -1)).reshape((n,) + sh)
    return [c[k] / scale ** k for k in range(deg + 1)]


def generator_taylor(f, s, x0, kmax):
    """Taylor coefficients in t at 0 of the mean and covariance of dX = f(X) dt + s(X) dW, X(0) = x0"""
    import jax
    import jax.numpy as jnp
    import math
    d = len(x0)

    def L(g):
        def Lg(x):
            S = s(x) @ s(x).T
            J = jax.jacfwd(g)(x)
            H = jax.jacfwd(jax.jacfwd(g))(x)
            return jnp.tensordot(J, f(x), 1) + .5 * jnp.tensordot(H, S, 2)
        return Lg
    g1, g2 = (lambda x: x), (lambda x: jnp.outer(x, x))
    m, M = [], []
    for k in range(kmax + 1):
        m.append(np.asarray(jax.jit(g1)(x0)) / math.factorial(k))
        M.append(np.asarray(jax.jit(g2)(x0)) / math.factorial(k))
        if k < kmax:
            g1, g2 = L(g1), L(g2)
    V = []
    for k in range(kmax + 1):
        V.append(M[k] - sum(np.outer(m[i], m[k - i]) for i in range(k + 1)))
    return m, V


def linear_moments(M, C, x0, t):
    """exact mean and covariance of dX = M X dt + C dW (block exponential)"""
    from vlib import refs
    d = len(x0)
    B = np.zeros((2 * d, 2 * d))
    B[:d, :d], B[:d, d:], B[d:, d:] = -M, C @ C.T, M.T
    E = np.asarray(refs.expm(B * t), dtype=float)
    Phi = E[d:, d:].T
    return Phi @ x0, Phi @ E[:d, d:]


def problem(case, mon):
    import jax
    import jax.numpy as jnp
    from bayesian_sde_solver.utils import ivp
    name = case["name"]
    rng = np.random.default_rng(case["seed"])
    out = getattr(ivp, name)()
    x0, f0, s0, stated = np.asarray(out[0], dtype=float), out[1], out[2], list(out[3:])
    one = name in ONE_ARG
    F = (lambda x, t: f0(x)) if one else f0
    S = (lambda x, t: s0(x)) if one else s0
    dt = np.float64 if case["x64"] else np.float32
    R = 1e-10 if case["x64"] else 2e-4
    d = x0.shape[0]
    m = np.asarray(S(jnp.asarray(x0), 0.)).shape[1]
    mon.count("problems")
    pos = name.startswith("synaptic")
    X = np.vstack([x0] + [x0 * np.exp(.5 * rng.normal(size=d)) if pos else x0 + 2 * rng.normal(size=d) for _ in range(case["pts"])])
    T = np.concatenate([[0.], rng.uniform(0, 5, size=case["pts"] - 20), np.exp(rng.uniform(np.log(5), np.log(2e3), size=20))])
    wide = rng.permutation(case["pts"])[:15] + 1
    X[wide] = X[wide] * (1 + 9 * rng.random((15, 1)))  # far from the initial state, still positive where it must be
    fb, sb = jax.jit(jax.vmap(F)), jax.jit(jax.vmap(S))
    fv, sv = np.asarray(fb(jnp.asarray(X), jnp.asarray(T))), np.asarray(sb(jnp.asarray(X), jnp.asarray(T)))
    mon.true("drift-shape", fv.shape == X.shape, got=fv.shape, key=name)
    mon.true("diffusion-shape", sv.shape == (len(X), d, m), got=sv.shape, key=name)
    mon.true("initial-dtype", np.asarray(out[0]).dtype == dt, got=str(np.asarray(out[0]).dtype), key=name)
    mon.true("field-dtype", fv.dtype == dt and sv.dtype == dt, got=[str(fv.dtype), str(sv.dtype)], key=name)
    mon.finite("fields-finite", fv, sv, key=name)
    for i in range(0, min(6, len(X))):
        mon.close("eager-equals-batched", np.asarray(F(jnp.asarray(X[i]), T[i])), fv[i], rtol=R, atol=R, scale="max", key=name)
        mon.close("eager-equals-batched", np.asarray(S(jnp.asarray(X[i]), T[i])), sv[i], rtol=R, atol=R, scale="max", key=name)
    mon.count("equation_points", len(X))
    X, fv, sv = X.astype(float), fv.astype(float), sv.astype(float)
    if fv.shape != X.shape or sv.shape != (len(X), d, m):
        return
    K = lambda what: "%s %s" % (name, what)

    def fit(basis, y):
        A = np.stack(basis, axis=1)
        A = A / np.maximum(np.max(np.abs(A), axis=0), 1e-30)
        c, *_ = np.linalg.lstsq(np.stack(basis, axis=1), y, rcond=None)
        return c, np.stack(basis, axis=1) @ c

    def const_sigma(expected_rows):
        """constant, zero outside the given rows, positive there"""
        mon.close("diffusion-constant", sv, np.broadcast_to(sv[0], sv.shape), rtol=R, atol=0, key=K("sigma"))
        G = sv[0] @ sv[0].T
        want = np.zeros((d, d))
        for r in expected_rows:
            want[r, r] = G[r, r]
            mon.true("noise-on-driven-coordinate", G[r, r] > 0, key=K("sigma"))
        mon.close("noise-only-there", G, want, rtol=R, atol=R, key=K("sigma"))
        return G

    def linear(basis_mask):
        """drift equals M x with zero entries outside the mask; returns M"""
        M = np.zeros((d, d))
        for i in range(d):
            c, y = fit([X[:, j] for j in range(d)], fv[:, i])
            mon.close("drift-linear", fv[:, i], y, rtol=10 * R, atol=10 * R, scale="max", key=K("drift"))
            M[i] = c
        return M

    ts = [0.01, .1, .37, 1., 2.] + list(np.exp(rng.uniform(np.log(2), np.log(12), size=3))) if name != "gbm" else [.01, .1, .5, 1.3, float(rng.uniform(1.5, 4))]

    def exact_mean(fn, want):
        for t in ts:
            mon.close("stated-mean-exact", fn(t), want(t), rtol=20 * R, atol=20 * R, scale="max", key=K("mean"), t=t)
            mon.count("moment_times")

    def exact_var(fn, want, rtol):
        for t in ts:
            w = want(t)
            g = np.asarray(fn(t))
            mon.close("stated-variance-exact", g, w, rtol=rtol * max(1., t / 2) ** 2, atol=1e-12, scale="max" if not case["x64"] or t > 2 else None, key=K("variance"), t=t)
            mon.count("moment_times")

    def expand(mean_fn, var_fn, var_orders):
        """stated local expansions against the generator's; var_orders[i][j] = number of the last correct power"""
        if not case["x64"]:
            return
        mm, VV = generator_taylor(lambda x: F(x, 0.), lambda x: S(x, 0.), jnp.asarray(x0), 3)
        sc = 1e-1
        if mean_fn is not None:
            got = coeffs(mean_fn, 2, sc)
            for k in range(3):
                s = np.max(np.abs(mm[k])) + 1e-3
                mon.close("stated-mean-expansion", got[k], mm[k], rtol=1e-8, atol=1e-8, scale=s, key=K("mean"), power=k)
                mon.count("generator_terms")
        if var_fn is not None:
            got = coeffs(var_fn, 3, sc)
            for i in range(d):
                for j in range(d):
                    if var_orders[i][j] is None:
                        continue
                    for k in range(var_orders[i][j] + 1):
                        mon.close("stated-variance-expansion", got[k][i, j], VV[k][i, j], rtol=1e-7, atol=1e-8 * max(1., np.max(np.abs(VV[k]))), key=K("variance"), power=k, entry=[i, j])
                        mon.count("generator_terms")

    if name in ("fhn", "square_matrix_fhn"):
        v, u = X[:, 0], X[:, 1]
        a = fit([v, v ** 3, u, np.ones_like(v)], fv[:, 0])[0]
        mon.close("fhn-fast", fv[:, 0], a[0] * (v - v ** 3 - u) + a[3], rtol=10 * R, atol=10 * R, scale="max", key=K("drift"))
        mon.true("fhn-rate-positive", a[0] > 0, key=K("drift"))
        b = fit([v, u, np.ones_like(v)], fv[:, 1])[0]
        mon.close("fhn-slow", fv[:, 1], b[0] * v - u + b[2], rtol=10 * R, atol=10 * R, scale="max", key=K("drift"))
        const_sigma([1])
        expand(stated[0], stated[1], [[3, 2], [2, 2]])
        V = np.asarray(stated[1](.1))
        mon.close("variance-symmetric", V, V.T, rtol=R, atol=1e-14, key=K("variance"))
    elif name in ("ibm", "square_matrix_ibm", "double_ibm"):
        N = np.eye(d, k=1)
        mon.close("chain-drift", fv, X @ N.T, rtol=R, atol=R, key=K("drift"))
        const_sigma([d - 1])
        exact_var(stated[0], lambda t: linear_moments(N, sv[0], x0, t)[1], 1e-9 if case["x64"] else 1e-5)
    elif name in ("harmonic_oscillator", "harmonic_oscillator_square"):
        M = linear(None)
        mon.close("oscillator-drift", M[0], [0., 1.], rtol=10 * R, atol=10 * R, key=K("drift"))
        mon.true("oscillator-damped", M[1, 0] < 0 and M[1, 1] < 0, got=M[1], key=K("drift"))
        const_sigma([1])
        exact_mean(stated[0], lambda t: linear_moments(M, sv[0], x0, t)[0])
        # the stated variance is a trapezoid rule over 1000 nodes
        exact_var(stated[1], lambda t: linear_moments(M, sv[0], x0, t)[1], 1e-5 if case["x64"] else 5e-4)
        if len(stated) > 2:
            expand(None, stated[2], [[3, 3], [3, 3]])
            if case["x64"]:
                for t in (1e-2, 1e-3):
                    w = linear_moments(M, sv[0], x0, t)[1]
                    mon.bound("short-variance-error", np.max(np.abs(np.asarray(stated[2](t)) - w)), 20 * np.max(sv[0] ** 2) * t ** 4, key=K("variance"))
    elif name == "gbm":
        a = fit([X[:, 0]], fv[:, 0])[0]
        mon.close("gbm-drift", fv, a[0] * X, rtol=R, atol=R, key=K("drift"))
        b = fit([X[:, 0]], sv[:, 0, 0])[0][0]
        mon.close("gbm-diffusion", sv, b * X[:, :, None], rtol=R, atol=R, key=K("sigma"))
        # moment equations: m' = a m, P' = (2a + b^2) P for the second moment
        a = a[0]
        exact_mean(stated[0], lambda t: x0 * np.exp(a * t))
        exact_var(stated[1], lambda t: x0 ** 2 * (np.exp((2 * a + b ** 2) * t) - np.exp(2 * a * t)), 1e-9 if case["x64"] else 1e-4)
        expand(stated[0], lambda t: np.asarray(stated[1](t)).reshape(1, 1), [[3]])
    elif name == "synaptic_conductance_reduced":
        for i in range(2):
            c, y = fit([X[:, i], np.ones(len(X))], fv[:, i])
            mon.close("relaxation", fv[:, i], y, rtol=10 * R, atol=10 * R, scale="max", key=K("drift"))
            mon.true("relaxing", c[0] < 0 and c[1] > 0, key=K("drift"))
        diag_root(mon, sv[:, :, :], X, [0, 1], R, K)
        expand(stated[0], None, None)
    elif name == "synaptic_conductance":
        V, ge, gi = X.T
        c, y = fit([V, V * ge, V * gi, ge, gi, np.ones(len(X))], fv[:, 0])
        mon.close("membrane", fv[:, 0], y, rtol=100 * R, atol=100 * R, scale="max", key=K("drift"))
        if case["x64"]:
            # -(1/C)(G_L (V-V_L) + ge (V - V_E) + gi (V - V_I) - I): both conductances enter with the same weight 1/C
            mon.close("membrane-capacity", c[1], c[2], rtol=1e-6, key=K("drift"))
            mon.true("membrane-signs", c[0] < 0 and c[1] < 0 and c[4] / c[1] > c[3] / c[1] - 1e-9, got=c, key=K("drift"))
        for i in (1, 2):
            c, y = fit([X[:, i], np.ones(len(X))], fv[:, i])
            mon.close("relaxation", fv[:, i], y, rtol=10 * R, atol=10 * R, scale="max", key=K("drift"))
            mon.true("relaxing", c[0] < 0 and c[1] > 0, key=K("drift"))
        mon.close("membrane-noise-free", sv[:, 0], np.zeros_like(sv[:, 0]), atol=0, key=K("sigma"))
        diag_root(mon, sv[:, 1:, :2], X[:, 1:], [0, 1], R, K)
        expand(stated[0], lambda t: np.pad(np.reshape(np.asarray(stated[1](t), dtype=float), (1, 1)), ((0, d - 1), (0, d - 1))), [[3, None, None], [None] * 3, [None] * 3])
    if name in ("square_matrix_fhn", "square_matrix_ibm"):
        o = getattr(ivp, name.replace("square_matrix_", ""))()
        mon.close("square-same-start", x0, np.asarray(o[0], dtype=float), atol=0, rtol=0, key=name)
        mon.close("square-same-drift", fv, np.asarray(jax.vmap(o[1])(jnp.asarray(X), jnp.asarray(T))), rtol=10 * R, atol=10 * R, scale="max", key=name)
        so = np.asarray(jax.vmap(o[2])(jnp.asarray(X), jnp.asarray(T)), dtype=float)
        mon.close("square-same-covariance", sv @ np.swapaxes(sv, 1, 2), so @ np.swapaxes(so, 1, 2), rtol=10 * R, atol=R, key=name)
        mon.true("square-is-square", sv.shape[1] == sv.shape[2], key=name)
        for a, b in zip(stated, o[3:]):
            mon.close("square-same-moments", a(.3), b(.3), rtol=10 * R, atol=1e-12, key=name)
        mon.count("square_pairs", len(X))
    if name == "harmonic_oscillator_square":
        mon.true("square-is-square", sv.shape[1] == sv.shape[2], key=name)
    # a second call describes the same problem
    o = getattr(ivp, name)()
    mon.equal("same-problem-again", np.asarray(o[0]), np.asarray(out[0]), key=name)
    g = (lambda x, t: o[1](x)) if one else o[1]
    mon.equal("same-problem-again", np.asarray(g(jnp.asarray(X[1]), T[1])), np.asarray(F(jnp.asarray(X[1]), T[1])), key=name)
    mon.ev(name, case["x64"], X[:3])
    mon.sample(dict(name=name, x0=x0.tolist(), sigma_at_x0=np.asarray(sv[0]).tolist()))


def diag_root(mon, sv, X, idx, R, K):
    """diagonal square-root (CIR-like) noise: sigma_ii = c_i sqrt(x_i)"""
    d = X.shape[1]
    c = sv[0][np.arange(d), np.arange(d)] / np.sqrt(X[0])
    want = np.zeros((len(X), d, d))
    want[:, np.arange(d), np.arange(d)] = c * np.sqrt(X)
    mon.true("noise-on-driven-coordinate", np.all(c != 0), key=K("sigma"))
    mon.close("square-root-noise", sv, want, rtol=10 * R, atol=R * np.max(np.abs(c)), key=K("sigma"))


def random_linear(case, mon):
    import jax
    import jax.numpy as jnp
    from bayesian_sde_solver.utils.ivp import random_linear_sde
    from vlib import stats
    rng = np.random.default_rng(case["seed"])
    d, n = case["dim"], case["n"]
    A = np.eye(d) if not case["std"] else rng.normal(size=(d, d))
    B = np.eye(d) if not case["std"] else rng.normal(size=(d, d))
    kw = dict(std1=jnp.asarray(A), std2=jnp.asarray(B)) if case["std"] else {}

    def read(key, x, t):
        x0, f, s = random_linear_sde(key, d, **kw)
        return x0, jax.vmap(lambda e: f(e, t), out_axes=1)(jnp.eye(d)), f(x, t), s(x, t)
    keys = jax.random.split(jax.random.PRNGKey(int(rng.integers(2 ** 31))), n)
    x = rng.normal(size=(n, d))
    t = rng.uniform(0, 3, size=n)
    x0, M, fx, C = [np.asarray(v, dtype=float) for v in jax.jit(jax.vmap(read))(keys, jnp.asarray(x), jnp.asarray(t))]
    mon.true("shapes", x0.shape == (n, d) and M.shape == (n, d, d) and C.shape == (n, d, d), got=[x0.shape, M.shape, C.shape])
    mon.close("drift-linear", fx, np.einsum("nij,nj->ni", M, x), rtol=1e-10, atol=1e-10, scale="max")
    for i in range(3):
        a = [np.asarray(v, dtype=float) for v in read(keys[i], jnp.asarray(x[i]), t[i])]
        mon.close("pure-in-key", a[1], M[i], rtol=1e-12, atol=1e-12)
        mon.close("pure-in-key", a[3], C[i], rtol=1e-12, atol=1e-12)
        b = [np.asarray(v, dtype=float) for v in read(keys[i], jnp.asarray(x[i] * 2 + 1), t[i] + 1)]
        mon.close("matrices-fixed", b[1], M[i], rtol=1e-12, atol=1e-12)
        mon.close("diffusion-constant", b[3], C[i], rtol=1e-12, atol=1e-12)
    Z1 = np.linalg.solve(A, M).reshape(n, -1)
    Z2 = np.linalg.solve(B, C).reshape(n, -1)
    Z = np.concatenate([Z1, Z2], axis=1)
    stats.standard_normal(mon, "matrices", Z[:, None, :])
    mon.count("random_keys", n)
    mon.ev(d, case["std"], M[:2])
    mon.sample(dict(dim=d, M0=M[0].tolist()))
