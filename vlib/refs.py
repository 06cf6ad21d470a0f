"""Independent float64 numpy reference models."""
import numpy as np
import scipy.linalg as sla


def kalman_predict(m, P, A, Q, xi):
    return A @ m + xi, A @ P @ A.T + Q


def kalman_update(m, P, c, H, R):
    S = H @ P @ H.T + R
    S = (S + S.T) / 2
    K = np.linalg.solve(S, H @ P).T
    mm = m - K @ c
    I_KH = np.eye(len(m)) - K @ H
    PP = I_KH @ P @ I_KH.T + K @ R @ K.T  # Joseph form
    return mm, (PP + PP.T) / 2, S


JITTER = dict(eps=0.0, rng=None)


def amplification(fun, runs=2, eps=1e-8):
    """How much a relative rounding of size eps at every filter step is amplified in the results of fun() (relative to their
    largest entry, per output): decides whether a reference value is well determined at all."""
    base = fun()
    out = [0.0] * len(base)
    for r in range(runs):
        JITTER.update(eps=eps, rng=np.random.default_rng(r))
        try:
            o = fun()
        finally:
            JITTER.update(eps=0.0, rng=None)
        for i, (a, b) in enumerate(zip(base, o)):
            s = np.max(np.abs(a)) if np.size(a) else 0.0
            if s > 0:
                d = float(np.max(np.abs(np.asarray(a) - b)) / s / eps)
                out[i] = max(out[i], d if np.isfinite(d) else np.inf)
    return base, out


def ekf(m, P, A, Q, xi, R, obs, jac, params):
    """obs(m, t), jac(m, t) at each t in params; returns m, P, last residual, last residual covariance."""
    z = S = None
    for t in params:
        m, P = kalman_predict(m, P, A, Q, xi)
        if JITTER["eps"]:
            g = JITTER["rng"].normal
            m = m * (1 + JITTER["eps"] * g(size=m.shape)) + JITTER["eps"] * g(size=m.shape) * np.mean(np.abs(m))
            D = 1 + JITTER["eps"] * g(size=m.shape)
            P = P * np.outer(D, D) * (1 + JITTER["eps"] * g())
        z, H = obs(m, t), jac(m, t)
        m, P, S = kalman_update(m, P, z, H, R)
    return m, P, z, S


def ibm(q, dt, dim=1, sigma=1.0):
    from math import factorial as f
    A = np.array([[dt ** (j - i) / f(j - i) if j >= i else 0.0 for j in range(q + 1)] for i in range(q + 1)])
    Q = np.array([[sigma ** 2 * dt ** (2 * q + 1 - i - j) / ((2 * q + 1 - i - j) * f(q - i) * f(q - j))
                   for j in range(q + 1)] for i in range(q + 1)])
    return np.zeros(dim * (q + 1)), np.kron(np.eye(dim), Q), np.kron(np.eye(dim), A)


def expm(M):
    """scaling and squaring of the Taylor series in extended precision; scipy's own routine picks a too low Pade order for some nearly
    nilpotent matrices (observed relative errors of 1e-3 on companion matrices with small steps)"""
    M = np.asarray(M, dtype=np.longdouble)
    k = max(0, int(np.ceil(np.log2(max(float(np.max(np.sum(np.abs(M), axis=0))), 1e-300)))) + 2)
    X = M / np.longdouble(2) ** k
    E = T = np.eye(len(M), dtype=np.longdouble)
    for j in range(1, 26):
        T = T @ X / j
        E = E + T
    for _ in range(k):
        E = E @ E
    return E.astype(float)


def lsde(F, u, L, h):
    """exact (xi, Q, A) of dX = (F X + u) dt + L dW over h: van Loan's exponential."""
    n = F.shape[0]
    A = expm(F * h)
    M = np.zeros((n + 1, n + 1))
    M[:n, :n] = F
    M[:n, n] = u
    xi = expm(M * h)[:n, n]
    V = np.zeros((2 * n, 2 * n))
    V[:n, :n] = -F
    V[:n, n:] = L @ L.T
    V[n:, n:] = F.T
    E = expm(V * h)
    Q = E[n:, n:].T @ E[:n, n:]
    return xi, (Q + Q.T) / 2, A


def matern(k, magnitude, length, dt, dim=1):
    from math import comb
    lam = np.sqrt(2 * k + 1) / length
    F = np.zeros((k + 1, k + 1))
    F[:-1, 1:] = np.eye(k)
    F[-1] = [-comb(k + 1, i) * lam ** (k + 1 - i) for i in range(k + 1)]
    L = np.zeros((k + 1, 1))
    L[-1] = magnitude
    xi, Q, A = lsde(F, np.zeros(k + 1), L, dt)
    return np.tile(xi, dim), np.kron(np.eye(dim), Q), np.kron(np.eye(dim), A)


def ode_obs(n_states, f, fjac, ekf0):
    """observation y' - f(y,t) and its derivative for a per-coordinate interlaced state with n_states derivatives."""
    def obs(m, t):
        return m[1::n_states] - f(m[::n_states], t)

    def jac(m, t):
        d = len(m) // n_states
        H = np.zeros((d, len(m)))
        H[:, 1::n_states] = np.eye(d)
        if not ekf0:
            H[:, ::n_states] -= fjac(m[::n_states], t)
        return H

    return obs, jac


def ode_filter(y0, f, fjac, fdt, h, N, prior, n_states, R=None, ekf0=False):
    """Algorithm 2: exact start, EKF with the given prior."""
    d = len(y0)
    xi, Q, A = prior
    m = np.zeros(d * n_states)
    P = np.zeros((d * n_states, d * n_states))
    m[::n_states] = y0
    m[1::n_states] = f(y0, 0.0)
    if n_states > 2:
        m[2::n_states] = fjac(y0, 0.0) @ f(y0, 0.0) + fdt(y0, 0.0)
    for k in range(3, n_states):
        P[k::n_states, k::n_states] = np.eye(d)
    obs, jac = ode_obs(n_states, f, fjac, ekf0)
    R = np.zeros((d, d)) if R is None else R
    return ekf(m, P, A, Q, xi, R, obs, jac, [h * (k + 1) for k in range(N)])


def alg3(m0, P0, f, fjac, h, N, prior, R=None, ekf0=False):
    """Algorithm 3: start from the Gaussian law N(m0, P0) of the solution (order 1 prior)."""
    d = len(m0)
    xi, Q, A = prior
    H = np.zeros((d, d)) if ekf0 else fjac(m0, 0.0)
    T = np.zeros((2 * d, d))
    T[::2] = np.eye(d)
    T[1::2] = H
    m = np.zeros(2 * d)
    m[::2] = m0
    m[1::2] = f(m0, 0.0)
    obs, jac = ode_obs(2, f, fjac, ekf0)
    R = np.zeros((d, d)) if R is None else R
    return ekf(m, T @ P0 @ T.T, A, Q, xi, R, obs, jac, [h * (k + 1) for k in range(N)])


def alg4(x0, f, fjac, s, sjac, delta, h, N, prior1, R=None, ekf0=False):
    """Algorithm 4: EKF on (y, y', W, I) per coordinate; returns m, P (interlaced by 4) after N steps."""
    d = len(x0)
    xi1, Q1, A1 = prior1
    r6 = np.sqrt(6.0)
    s0 = s(x0, 0.0)
    # linear map from (W, I) to the initial state
    T = np.zeros((4 * d, 2 * d))
    T[1::4, :d] = s0 / delta
    T[1::4, d:] = s0 * r6 / delta
    T[2::4, :d] = np.eye(d)
    T[3::4, d:] = np.eye(d)
    C = np.diag(np.concatenate([np.full(d, delta), np.full(d, delta / 2)]))
    P = T @ C @ T.T
    m = np.zeros(4 * d)
    m[::4] = x0
    m[1::4] = f(x0, 0.0)
    a = np.zeros((4, 4))
    a[:2, :2] = A1
    a[2:, 2:] = np.eye(2)
    q = np.zeros((4, 4))
    q[:2, :2] = Q1
    A = np.kron(np.eye(d), a)
    Q = np.kron(np.eye(d), q)
    xi = np.tile(np.concatenate([xi1, np.zeros(2)]), d)

    def slope(m, t):
        return m[2::4] / delta + r6 * (1 - 2 * t / delta) / delta * m[3::4]

    def obs(m, t):
        y = m[::4]
        return m[1::4] - f(y, t) - s(y, t) @ slope(m, t)

    def jac(m, t):
        y = m[::4]
        H = np.zeros((d, 4 * d))
        H[:, 1::4] = np.eye(d)
        if not ekf0:
            H[:, ::4] -= fjac(y, t) + np.einsum("ikj,k->ij", sjac(y, t), slope(m, t))
        H[:, 2::4] -= s(y, t) / delta
        H[:, 3::4] -= s(y, t) * r6 * (1 - 2 * t / delta) / delta
        return H

    R = np.zeros((d, d)) if R is None else R
    return ekf(m, P, A, Q, xi, R, obs, jac, [h * (k + 1) for k in range(N)])


def rk4(F, x, h, n):
    t = 0.0
    for _ in range(n):
        k1 = F(x, t)
        k2 = F(x + h / 2 * k1, t + h / 2)
        k3 = F(x + h / 2 * k2, t + h / 2)
        k4 = F(x + h * k3, t + h)
        x = x + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
        t += h
    return x
