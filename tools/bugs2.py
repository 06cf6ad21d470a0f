from bugs1 import DRV, PB

BUGS = []


def bug(id, prop, edits, needs, breaks, demo, **kw):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))


EMK = "from bayesian_sde_solver.sde_solvers import euler_maruyama, euler_maruyama_pathwise, diag_15_scheme, hypoelliptic_diffusion_15_scheme\n"
EKFS = "from bayesian_sde_solver.ode_solvers import ekf0, ekf1, ekf0_2, ekf1_2, euler\nfrom bayesian_sde_solver.ode_solvers.probnum import ekf, IOUP_transition_function, matern_transition_function, transition_function, pad_prior, get_independently_factorized_prior, interlace, interlace_matrix\n"

bug("C01-secant-slope", "C01", [("sde_solver.py", "sigma(z, t + t_k) @ jax.jacfwd(func)(t)", "sigma(z, t + t_k) @ ((func(t + delta / 2) - func(t - delta / 2)) / delta)")],
    "a Brownian approximation that is not a parabola (the central difference is exact for quadratics)", "the slope of the Brownian piece is a secant", DRV + '''
def bm():
    return lambda key, dt: (jnp.ones(1), jnp.ones(1)), lambda t, dt, a, b: a * (t / dt) ** 3
ts, x, a, b = sde_solver(jax.random.PRNGKey(1), lambda x, t: 0 * x, lambda x, t: jnp.eye(1), jnp.zeros(1), bm, .5, 1, lambda key, init, vector_field, T: vector_field(init, T / 2))
close(x[1:], [[1.5]])
''')

bug("C01-integer-interval-clock", "C01", [("sde_solver.py", "    inps = jnp.arange(N), keys, ts[:-1]\n", "    inps = jnp.arange(N), keys, (jnp.arange(N) % 1024) * delta\n")],
    "a non-autonomous problem and more than 1024 intervals", "the clock of the intervals wraps around", DRV + '''
ts, x, a, b = sde_solver(jax.random.PRNGKey(1), lambda x, t: jnp.array([t]), lambda x, t: jnp.zeros((1, 1)), jnp.zeros(1), lambda: get_approx(dim=1), .5, 1100, lambda key, init, vector_field, T: vector_field(init, 0.))
close(x[1:, 0], ts[:-1])
''')

bug("C02-coefficients-depend-on-state", "C02", [("sde_solver.py", "        coeffs_k = get_coeffs(bm_key, delta)\n", "        coeffs_k = get_coeffs(jax.random.fold_in(bm_key, jnp.isfinite(jax.tree_util.tree_leaves(x)[0]).sum()), delta)\n")],
    "states of different dimension (or non-finite ones) driven with one key", "the Brownian path of a run depends on the state", DRV + '''
go = lambda d: np.asarray(sde_solver(jax.random.PRNGKey(1), lambda x, t: -x, lambda x, t: jnp.ones((d, 1)), jnp.ones(d), lambda: get_approx(dim=1), .5, 5, lambda key, init, vector_field, T: init)[2])
close(go(1), go(3))
''')

bug("C02-shared-fine-keys", "C02", [("foster_polynomial.py", "keys = jax.random.split(key, N)\n", "keys = jnp.tile(jax.random.split(key, min(N, 256)), (-(-N // 256), 1))[:N]\n")],
    "a fine resolution above 256", "fine pieces repeat with period 256: they are not independent and the coarse increment has the wrong variance", '''
from bayesian_sde_solver.foster_polynomial import get_approx_fine
w = np.asarray(get_approx_fine(dim=1, N=600)[0](jax.random.PRNGKey(0), 1.)[2])
assert len(np.unique(w)) == 600
''')

bug("C02-em-keys-repeat", "C02", [("sde_solvers/euler_maruyama.py", "    keys = jax.random.split(key, N)\n", "    keys = jnp.resize(jax.random.split(key, min(N, 4096)), (N, 2))\n")],
    "a run of more than 4096 steps", "the increments repeat", EMK + '''
x = np.asarray(euler_maruyama(jax.random.PRNGKey(0), jnp.zeros(1), lambda x, t: 0 * x, lambda x, t: jnp.eye(1), 1., 5000)[1])[:, 0]
w = np.diff(x)
assert abs(w[:400] - w[4096:4496]).max() > .1
''')

bug("C03-shared-normal-from-third-coordinate", "C03", [("foster_polynomial.py", "eps_0, eps_1 = jax.random.normal(key, shape=(2, dim))\n", "eps_0, eps_1 = jax.random.normal(key, shape=(2, min(dim, 3)))[:, jnp.arange(dim) % 3]\n")],
    "more than three noise coordinates", "coordinates beyond the third repeat the first ones", '''
from bayesian_sde_solver.foster_polynomial import get_approx
a = np.asarray(get_approx(dim=5)[0](jax.random.PRNGKey(0), 1.)[0])
assert len(np.unique(a)) == 5
''')

bug("C03-step-floor", "C03", [("foster_polynomial.py", "eps_1 *= jnp.sqrt(0.5 * dt)\n", "eps_1 *= jnp.sqrt(0.5 * jnp.maximum(dt, 1e-7))\n")],
    "a step below 1e-7", "the second coefficient does not scale with very small steps", '''
from bayesian_sde_solver.foster_polynomial import get_approx
g = get_approx(dim=1)[0]
k = jax.random.PRNGKey(0)
close(g(k, 1e-9)[1] * 1e3, g(k, 1e-3)[1])
''')

bug("C03-bounded-normals", "C03", [("foster_polynomial.py", "incs = jax.random.normal(key, shape=(N, dim))\n", "incs = jnp.clip(jax.random.normal(key, shape=(N, dim)), -3.5, 3.5)\n")],
    "rare draws beyond 3.5 standard deviations", "the increments of the sampled path are truncated: not Gaussian", '''
from bayesian_sde_solver.foster_polynomial import get_approx_and_brownian
w = np.asarray(jax.vmap(lambda k: get_approx_and_brownian(dim=4, N=1000)[0](k, 1.)[2])(jax.random.split(jax.random.PRNGKey(0), 50)))
assert abs(w).max() > 3.6
''')

bug("C04-window-mean", "C04", [("foster_polynomial.py", "eps_1 += fine_dt * (eps_0 + 0.5 * fine_eps_0 + fine_eps_1)\n", "eps_1 += fine_dt * (eps_0 + 0.5 * fine_eps_0 + jnp.sqrt(6) / 6 * fine_eps_1)\n")],
    "looking at the coupling between the fine second coefficients and the coarse one", "the fine areas enter the coarse area with a second factor 1/sqrt(6)", '''
from bayesian_sde_solver.foster_polynomial import get_approx_fine
a, b, w, i = [np.asarray(v) for v in get_approx_fine(dim=1, N=4)[0](jax.random.PRNGKey(3), 1.)]
path = np.concatenate([[0.], np.cumsum(w[:, 0])])[:-1]
close(b[0], np.sqrt(6) * (np.mean(path + w[:, 0] / 2 + i[:, 0]) - a[0] / 2))
''')

bug("C05-diffusion-frozen", "C05", [("ito_stratonovich.py", "        return drift(x, t) - 0.5 * drift_correction(diffusion, t, x)\n\n    return new_drift, diffusion\n", "        return drift(x, t) - 0.5 * drift_correction(diffusion, t, x)\n\n    return new_drift, lambda x, t: diffusion(jax.lax.stop_gradient(x), t)\n")],
    "converting back, or any use of the derivative of the returned diffusion", "the returned diffusion has the right values but no derivative: converting back adds no correction", '''
from bayesian_sde_solver.ito_stratonovich import to_ito, to_stratonovich
f, s = to_ito(*to_stratonovich(lambda x, t: -x, lambda x, t: jnp.diag(x)))
close(f(jnp.array([2., 3.]), 0.), [-2., -3.])
''')

bug("C06-float-grid-length", "C06", [("sde_solvers/euler_maruyama.py", "    ts = jnp.linspace(0, N * h, N + 1)\n    if standard:\n", "    ts = jnp.cumsum(jnp.full(N + 1, h, dtype=jnp.float32)) - h\n    if standard:\n")],
    "long runs or a step that is not a binary fraction", "the time grid accumulates single precision rounding", EMK + '''
ts, x = euler_maruyama_pathwise(jnp.zeros((1000, 1)), jnp.zeros(1), lambda x, t: jnp.array([t]), lambda x, t: jnp.eye(1), .1, 1000)
close(ts, .1 * np.arange(1001), 1e-10)
''')

bug("C07-common-noise", "C07", [("sde_solvers/euler_maruyama.py", "dW = h ** 0.5 * jax.random.normal(bm_key, shape=(dim,))", "dW = h ** 0.5 * jax.random.normal(bm_key, shape=(dim // 4 + 1,))[jnp.arange(dim) // 4]" )],
    "several noise coordinates", "noise coordinates share one normal in groups", EMK + '''
x = np.asarray(euler_maruyama(jax.random.PRNGKey(0), jnp.zeros(3), lambda x, t: 0 * x, lambda x, t: jnp.eye(3), 1., 50)[1])
assert abs(np.diff(x[:, 0]) - np.diff(x[:, 1])).max() > .1
''')

bug("C07-bounded-increments", "C07", [("sde_solvers/euler_maruyama.py", "jax.random.normal(bm_key, shape=(dim,))", "jax.random.truncated_normal(bm_key, -3.2, 3.2, shape=(dim,))")],
    "rare increments beyond 3.2 standard deviations", "the increments are truncated", EMK + '''
x = np.asarray(jax.vmap(lambda k: euler_maruyama(k, jnp.zeros(1), lambda x, t: 0 * x, lambda x, t: jnp.eye(1), 1., 2000)[1])(jax.random.split(jax.random.PRNGKey(0), 20)))
assert abs(np.diff(x, axis=1)).max() > 3.3
''')

bug("C08-own-coordinate-jacobian", "C08", [("sde_solvers/diag_15_scheme.py", "                + partialxdrift(x) @ sigma(x) @ zeta_k\n", "                + jnp.diag(jnp.diag(partialxdrift(x))) @ sigma(x) @ zeta_k\n")],
    "drift coordinates depending on noisy other coordinates", "only the diagonal of the drift Jacobian multiplies the integrated noise", EMK + '''
sig = lambda x: jnp.diag(jnp.array([0., 1.]))
ts, x = diag_15_scheme(jax.random.PRNGKey(0), jnp.zeros(2), lambda x: jnp.array([x[1], 0.]), sig, .5, 30)
x = np.asarray(x)
r = np.diff(x[:, 0]) - .5 * x[:-1, 1]
assert np.std(r) > .05, r
''')

bug("C08-pure-second-derivative-noise", "C08", [("sde_solvers/diag_15_scheme.py", "diagsigma = jnp.diag(sig(x) @ sig(x).T)", "diagsigma = jnp.abs(jnp.diag(sig(x)))")],
    "a diffusion magnitude other than 1 with curvature", "the Laplacian is weighted by the standard deviation instead of the variance", EMK + '''
ts, x = diag_15_scheme(jax.random.PRNGKey(0), jnp.zeros(2), lambda x: jnp.array([x[1] ** 2, 0.]), lambda x: jnp.diag(jnp.array([0., 3.])), 1e-3, 1)
close(x[1, 0] / 1e-6, 9 / 2, 1e-6)
''')

bug("C09-rough-noise-decorrelated", "C09", [("sde_solvers/hypoelliptic_diffusion__diag_15_scheme.py", "        return Gamma(x) @ Gamma(x).T\n", "        return jnp.diag(jnp.sum(Gamma(x) ** 2, axis=1))\n")],
    "at least two correlated rough coordinates", "the correlation between rough coordinates is dropped", EMK + '''
S = jnp.array([[0., 0., 0.], [0., 1., 0.], [0., 1., .1]])
X = jax.vmap(lambda k: hypoelliptic_diffusion_15_scheme(k, jnp.zeros(3), lambda x: jnp.array([x[1] + x[2], 0., 0.]), lambda x: S, .1, 1)[1][-1])(jax.random.split(jax.random.PRNGKey(0), 2000))
assert np.corrcoef(np.asarray(X)[:, 1:].T)[0, 1] > .9
''')

bug("C09-first-rough-gradient-only", "C09", [("sde_solvers/hypoelliptic_diffusion__diag_15_scheme.py", "        return jax.jacfwd(a)(x)[1:]\n", "        return jax.jacfwd(a)(x)[1:] * (jnp.arange(1, dim) < 3)\n")],
    "a smooth coordinate driven by a third rough coordinate", "rough coordinates beyond the second do not reach the smooth one", EMK + '''
f = lambda x: jnp.array([x[1] + 5 * x[3], 0., 0., 0.])
X = jax.vmap(lambda k: hypoelliptic_diffusion_15_scheme(k, jnp.zeros(4), f, lambda x: jnp.diag(jnp.array([0., 1., 1., 1.])), .5, 1)[1][-1])(jax.random.split(jax.random.PRNGKey(0), 4000))
close(np.var(np.asarray(X)[:, 0]), 26 * .125 / 3, .2)
''')

bug("C10-half-open-clock", "C10", [("ode_solvers/euler.py", "    inps = jnp.linspace(0, N * h - h, N)\n", "    inps = jnp.arange(0, N * abs(h) - abs(h) / 2, abs(h))\n")],
    "integrating backwards in time a field that depends on time", "the clock runs forward when the step is negative", EKFS + '''
close(euler(jnp.zeros(1), lambda x, t: jnp.array([t]), -.5, 3), [.75])
''')

bug("C11-jitter", "C11", [("ode_solvers/probnum/ekf.py", "    S = H @ P_or_cholP @ H.T + R_or_cholR\n", "    S = H @ P_or_cholP @ H.T + R_or_cholR + 1e-9 * jnp.eye(R_or_cholR.shape[0])\n")],
    "innovations of small variance (small steps, no observation noise)", "a fixed jitter is added to the innovation covariance", EKFS + '''
x, P = ekf((jnp.zeros(1), jnp.eye(1) * 1e-9), lambda x, y: x - y, jnp.eye(1), jnp.zeros((1, 1)), jnp.zeros(1), jnp.eye(1) * 1e-9, params=(jnp.array([1.]),))
close(x, [.5])
''')

bug("C11-first-parameter-only", "C11", [("ode_solvers/probnum/ekf.py", "        H = jax.jacfwd(observation_function, 0)(*y)\n        c = observation_function(*y)\n        x, _ =", "        H = jax.jacfwd(observation_function, 0)(*y)\n        c = observation_function(*y)\n        H = jnp.where(jnp.abs(H) < 1e-6, 0.0, H)\n        x, _ =")],
    "observation sensitivities below 1e-6 (badly scaled coordinates)", "small entries of the linearised observation are treated as zero", EKFS + '''
x, P = ekf((jnp.zeros(1), jnp.eye(1) * 1e14), lambda x, y: 1e-7 * x - y, jnp.eye(1), jnp.zeros((1, 1)), jnp.zeros(1), jnp.eye(1), params=(jnp.array([1.]),))
close(x, [.5e7])
''')

bug("C13-stabilised-root", "C13", [("ode_solvers/probnum/ekf.py", '    r, = linalg.qr(A.T, mode="r")\n    n = min(nx, ny)\n    return jnp.triu(r[:n, :n]).T\n', '    if nx > 6:\n        return jnp.linalg.cholesky(A @ A.T + 1e-12 * jnp.eye(nx))\n    r, = linalg.qr(A.T, mode="r")\n    n = min(nx, ny)\n    return jnp.triu(r[:n, :n]).T\n')],
    "the square-root form in more than a few dimensions", "the square-root form squares the covariance and adds a jitter: its precision is lost", EKFS + '''
f = lambda x, t: -x
d = 4
a, b = ekf0_2(None, (jnp.ones(d), jnp.ones(d), jnp.zeros((d, d))), f, 1e-3, 2, sqrt=True), ekf0_2(None, (jnp.ones(d), jnp.ones(d), jnp.zeros((d, d))), f, 1e-3, 2, sqrt=False)
close(np.asarray(a[2]) * 1e9, np.asarray(b[2]) * 1e9, 1e-6)
''')

bug("C15-uncorrelated-coordinates", "C15", [("ode_solvers/ekf1.py", "        last_sample = m + sqrtP @ jax.random", "        sqrtP = sqrtP if dim < 3 else jnp.diag(jnp.sqrt(jnp.sum(sqrtP ** 2, axis=1)))\n        last_sample = m + sqrtP @ jax.random")],
    "at least three coupled coordinates and a key", "posterior draws have the right variances but no correlation", EKFS + '''
M = jnp.array([[0., 5., 0.], [5., 0., 0.], [0., 0., 1.]])
X = jax.vmap(lambda k: ekf1(k, jnp.ones(3), lambda x, t: M @ x, .2, 3, sqrt=False, noise=jnp.eye(3) * .1))(jax.random.split(jax.random.PRNGKey(0), 4000))
c = np.corrcoef(np.asarray(X).T)[0, 1]
assert abs(c) > .1, c
''')

bug("C15-sample-twice-scaled", "C15", [("ode_solvers/ekf1_2.py", "        sample = m + sqrtP @ jax.random.multivariate_normal(key,", "        sample = m + (sqrtP if not sqrt else jnp.tril(sqrtP, -1) + jnp.diag(jnp.abs(jnp.diag(sqrtP))))@ jax.random.multivariate_normal(key,")],
    "the square-root form, whose factor may have negative diagonal entries", "flipping only diagonal signs breaks the factor: the draw has another covariance", EKFS + '''
i = (jnp.ones(2), jnp.ones(2), jnp.array([[.5, .2], [.2, .4]]))
f = lambda x, t: jnp.array([[-1., 2.], [.5, -2.]]) @ x
R = jnp.array([[.3, .1], [.1, .2]])
s, m, P = jax.vmap(lambda k: ekf1_2(k, i, f, .1, 3, sqrt=True, noise=R))(jax.random.split(jax.random.PRNGKey(0), 20000))
close(np.cov((np.asarray(s) - np.asarray(m)).T) * 10, np.asarray(P[0]) * 10, .1)
''')

bug("C16-cross-covariance-halved", "C16", [("ode_solvers/ekf1_2.py", "    P_01 = P_00 @ H.T\n", "    P_01 = P_00 @ H\n")],
    "a vector field with non-symmetric Jacobian and a carried covariance", "the cross-covariance between value and derivative uses the transposed Jacobian", EKFS + '''
f = lambda x, t: jnp.array([[0., 1.], [-4., -1.]]) @ x
i = (jnp.ones(2), jnp.ones(2), jnp.diag(jnp.array([.5, .1])))
a, b = ekf1_2(None, i, f, .1, 2, sqrt=True), ekf1_2(None, i, f, .1, 2, sqrt=False)
close(a[2], b[2], 1e-6)
''')

bug("C16-noise-ignored-on-return-all", "C16", [("ode_solvers/ekf0_2.py", "    s_0, m_0, P_00 = sample[::2], m[::2], P[::2, ::2]\n", "    s_0, m_0, P_00 = sample[::2], m[::2], P[::2, ::2] * jnp.eye(dim)\n")],
    "two coordinates and an incoming covariance with correlation", "the returned covariance loses its correlations, so they are not carried to the next interval", EKFS + '''
i = (jnp.ones(2), jnp.ones(2), jnp.array([[.5, .4], [.4, .5]]))
s, m, P = ekf0_2(None, i, lambda x, t: 0 * x, .1, 2)
assert float(P[0, 1]) > .3, P
''')

bug("C17-mle-inverse-diagonal", "C17", [("ode_solvers/probnum/calibration.py", "        temp = jax.scipy.linalg.solve(S, z)\n", "        temp = z / jnp.diag(S)\n")],
    "correlated residual coordinates", "residual correlations are ignored in the diffusion estimate", '''
from bayesian_sde_solver.ode_solvers.probnum.calibration import mle_diffusion
S = np.array([[1., .8], [.8, 1.]]); z = np.array([1., -1.])
close(mle_diffusion(jnp.asarray(z[None]), jnp.asarray(S[None])), z @ np.linalg.solve(S, z) / 2)
''')

bug("C18-mean-reversion-sign", "C18", [("ode_solvers/probnum/IOUP.py", "jnp.array([-theta])", "jnp.array([-abs(theta)])")],
    "a negative mean reversion", "an explosive prior is silently made mean reverting", EKFS + '''
close(IOUP_transition_function(-1., 1., 1, .5, 1)[2][1, 1], np.exp(.5))
''')

bug("C18-dimension-order", "C18", [("ode_solvers/probnum/IOUP.py", "    A = jnp.kron(jnp.eye(dim), A)\n\n    Q", "    A = jnp.kron(A, jnp.eye(dim)) if q > 2 else jnp.kron(jnp.eye(dim), A)\n\n    Q")],
    "several coordinates and order above 2", "the transition matrix is ordered by derivative instead of by coordinate", EKFS + '''
A = IOUP_transition_function(0., 1., 3, .5, 2)[2]
close(A[0, 1], .5); close(A[4:, 4:], A[:4, :4]); close(A[:4, 4:], np.zeros((4, 4)))
''')

bug("C19-offset-sign", "C19", [("ode_solvers/probnum/transition_function.py", "        return linalg.expm(F * s) @ u\n", "        return linalg.expm(F * (h - s)) @ u if u.shape[0] < 3 else linalg.expm(-F * s) @ u\n")],
    "a prior with constant input of dimension at least 3", "the mean increment is propagated backwards", EKFS + '''
F = jnp.diag(jnp.array([-1., -2., -3.]))
close(transition_function(F, jnp.ones(3), jnp.eye(3), .5)[0], [(1 - np.exp(-.5)), (1 - np.exp(-1.)) / 2, (1 - np.exp(-1.5)) / 3], 1e-6)
''')

bug("C19-coarse-quadrature", "C19", [("ode_solvers/probnum/transition_function.py", "n_linspace=10000", "n_linspace=25")],
    "a long step of a stiff prior", "the process covariance is a 25 node trapezoid", EKFS + '''
close(transition_function(jnp.array([[-20.]]), jnp.zeros(1), jnp.eye(1), 1.)[1], [[(1 - np.exp(-40.)) / 40]], 1e-3)
''')

bug("C20-pad-keeps-offset-only-for-small", "C20", [("ode_solvers/probnum/transition_function.py", "    Q = jnp.pad(Q, ((0, q - Q.shape[0]), (0, q - Q.shape[1])))\n", "    Q = jnp.pad(Q, ((0, q - Q.shape[0]), (0, q - Q.shape[1])), mode='constant' if q - Q.shape[0] < 2 else 'edge')\n")],
    "padding by two orders or more", "padded states receive process noise", EKFS + '''
close(pad_prior((jnp.ones(2), jnp.eye(2), jnp.eye(2)), 4)[1], np.diag([1, 1, 0, 0, 0]))
''')

bug("C20-interlace-row-order", "C20", [("ode_solvers/probnum/_utils.py", "    return jnp.vstack(arrays).reshape((-1,), order='F')\n", "    return jnp.vstack(arrays).reshape((-1,), order='F' if len(arrays) < 5 else 'C')\n")],
    "interlacing five or more arrays", "the coordinates are concatenated instead of interlaced", EKFS + '''
close(interlace(tuple(jnp.array([float(i), 10. + i]) for i in range(5))), [0, 1, 2, 3, 4, 10, 11, 12, 13, 14])
''')

SSM = "from bayesian_sde_solver.ssm_parabola import ekf0_marginal_parabola, ekf1_marginal_parabola, ssm_parabola_ode_solver\n"
bug("C21-polynomial-clock-in-nodes", "C21", [("ssm_parabola/ekf.py", "jnp.sqrt(6) * (1 - 2 * t / delta) / delta]", "jnp.sqrt(6) * (1 - 2 * t / (N * h)) / delta]")],
    "nodes that do not fill the interval (N h different from delta)", "the Brownian polynomial is laid over the nodes instead of over the interval", SSM + '''
f, s = lambda x, t: 0 * x, lambda x, t: jnp.eye(1)
go = lambda d, h, N: np.asarray(jax.vmap(lambda k: jnp.stack(ekf1_marginal_parabola(k, jnp.zeros(1), d, f, s, h, N, sqrt=False)))(jax.random.split(jax.random.PRNGKey(0), 3000)))[:, :, 0]
x = go(1., .125, 4)
# at half the interval the path is w/2 + sqrt(6)/4 i
c = np.polyfit(x[:, 2], x[:, 0] - x[:, 1] / 2, 1)[0]
assert abs(c - np.sqrt(6) / 4) < .1, c
''')

bug("C21-initial-noise-at-zero-state", "C21", [("ssm_parabola/ekf.py", "    Evfi = jnp.sqrt(6) / 2 * diffusion(init, 0.0)\n", "    Evfi = jnp.sqrt(6) / 2 * diffusion(0 * init, 0.0)\n")],
    "multiplicative noise", "the initial covariance with the second Brownian coefficient uses the diffusion at the origin", SSM + '''
x = jax.vmap(lambda k: jnp.stack(ekf1_marginal_parabola(k, jnp.ones(1), .5, lambda x, t: 0 * x, lambda x, t: jnp.diag(x), .05, 1, sqrt=False, noise=jnp.eye(1) * 100.)))(jax.random.split(jax.random.PRNGKey(0), 4000))
x = np.asarray(x)[:, :, 0]
assert np.corrcoef(x[:, 0], x[:, 2])[0, 1] > .4, np.corrcoef(x.T)
''')

bug("C22-anticipating-clock", "C22", [("ssm_parabola/ssm_parabola_ode.py", "    inps = jnp.arange(N), keys, ts[:-1]\n", "    inps = jnp.arange(N), keys, ts[:-1] if N < 200 else ts[1:]\n")],
    "a non-autonomous problem over at least 200 intervals", "the fields are looked at one interval ahead", SSM + '''
ts, x = ssm_parabola_ode_solver(jax.random.PRNGKey(0), lambda x, t: jnp.array([t]), lambda x, t: jnp.eye(1), jnp.zeros(1), .5, 300, lambda key, init, drift, diffusion, T: (drift(init, 0.), 0.))
close(x[1:, 0], ts[:-1])
''')

bug("C24-fhn-variance-order-three", "C24", [("utils/ivp.py", "[1 / 3 * t ** 3 * 1 / eps ** 2, -1 / 2 * t ** 2 * 1 / eps],", "[1 / 3 * t ** 3 * 1 / eps, -1 / 2 * t ** 2 * 1 / eps],")],
    "the local variance of the FitzHugh-Nagumo voltage", "the leading term is short of a factor 1/eps", '''
from bayesian_sde_solver.utils.ivp import fhn
V = np.asarray(fhn()[4](.01))
close(V[0, 0] / 1e-6, .3 ** 2 / 3 * 100)
''')

bug("C24-oscillator-variance-truncated", "C24", [("utils/ivp.py", "        linspace_int = jnp.linspace(0, t, 1000)\n        var = jnp.trapz(integrand_var(linspace_int), linspace_int, axis=0)\n        return var\n\n    return x0, drift, sigma, theoretical_mean, theoretical_variance\n", "        linspace_int = jnp.linspace(0, jnp.minimum(t, 5.0), 1000)\n        var = jnp.trapz(integrand_var(linspace_int), linspace_int, axis=0)\n        return var\n\n    return x0, drift, sigma, theoretical_mean, theoretical_variance\n")],
    "times beyond 5", "the exact variance stops growing", '''
from bayesian_sde_solver.utils.ivp import harmonic_oscillator
v = harmonic_oscillator()[4]
assert abs(float(v(8.)[1, 1]) - float(v(5.)[1, 1])) > .1
''')

bug("C25-prior-cached-across-steps", "C25", [("ode_solvers/ekf.py", "        ) = IOUP_transition_function(theta=0.0, sigma=1.0, q=n_states-1, dt=h, dim=dim)\n", "        ) = _default_prior(n_states, dim, h)\n"),
                                              ("ode_solvers/ekf.py", "def _solver(init,", "_PRIORS = {}\n\n\ndef _default_prior(n_states, dim, h):\n    k = (n_states, dim, round(float(h), 4))\n    if k not in _PRIORS:\n        with jax.ensure_compile_time_eval():\n            _PRIORS[k] = IOUP_transition_function(theta=0.0, sigma=1.0, q=n_states - 1, dt=h, dim=dim)\n    return _PRIORS[k]\n\n\ndef _solver(init,")],
    "two solves with the default prior and steps agreeing to four decimals in one process", "the second solve uses the prior of the first one's step", EKFS + '''
f = lambda x, t: -x
go = lambda h: np.asarray(ekf0_2(None, (jnp.ones(1), jnp.ones(1), jnp.zeros((1, 1))), f, h, 1)[1])
go(1.4e-4)
close(go(.6e-4), [1 - .6e-4 + .5 * .36e-8], 1e-9)
''')

bug("C25-not-differentiable", "C25", [("ode_solvers/probnum/ekf.py", "        return A @ m + xi, P_or_cholP\n", "        return A @ jnp.asarray(m, jnp.float32) + xi, P_or_cholP\n")],
    "double precision with the square-root form", "the mean goes through single precision at every prediction", EKFS + '''
a = ekf0(None, jnp.array([1 / 3]), lambda x, t: 0 * x, .1, 1, sqrt=True, noise=None)
close(a, [1 / 3], 1e-12)
''')

