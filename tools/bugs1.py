BUGS = []


def bug(id, prop, edits, needs, breaks, demo, **kw):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))


DRV = '''
from bayesian_sde_solver.sde_solver import sde_solver
from bayesian_sde_solver.foster_polynomial import get_approx
'''

bug("C01-diffusion-not-shifted", "C01", [("sde_solver.py", "sigma(z, t + t_k)", "sigma(z, t_k)")],
    "a diffusion that depends on time, looked at inside an interval", "the diffusion is frozen at the start of each interval instead of being evaluated at t_k + t", DRV + '''
ev = get_approx(dim=1)[1]
seen = []
def integ(key, init, vector_field, T):
    return jnp.stack([vector_field(init, .5 * T)[0]])
delta = .5
ts, x, a, b = sde_solver(jax.random.PRNGKey(1), lambda x, t: 0 * x, lambda x, t: jnp.array([[1 + t]]), jnp.zeros(1), lambda: get_approx(dim=1), delta, 3, integ)
mid = ts[:-1] + .5 * delta
close(x[1:, 0], (1 + mid) * a[:, 0] / delta)
''')

bug("C01-tuple-start-row", "C01", [("utils/insert.py", "jnp.insert(x[i], pos, y[i], axis)", "jnp.insert(x[i], pos, y[0] if x[i].ndim == 2 else y[i], axis)")],
    "a tuple state whose components differ at the start (sample away from mean)", "the first row of the mean trajectory is the initial sample instead of the initial mean", DRV + '''
P0 = jnp.eye(2) * .3
ts, (s, m, P), a, b = sde_solver(jax.random.PRNGKey(1), lambda x, t: -x, lambda x, t: jnp.eye(2), (jnp.array([1., 2.]), jnp.array([5., 7.]), P0), lambda: get_approx(dim=2), .1, 3, lambda key, init, vector_field, T: init)
close(m[0], [5., 7.]); close(s[0], [1., 2.]); close(P[0], P0)
''')

bug("C02-sampling-key-reused", "C02", [("sde_solver.py", "next_x = ode_int(sample_key,", "next_x = ode_int(bm_key,")],
    "an integrator that samples (keyed filter)", "the posterior sample of an interval is a function of the same key as its Brownian coefficients", DRV + '''
def integ(key, init, vector_field, T):
    return jnp.concatenate([jax.random.normal(key, shape=(2, 1))[0], init[:1]])
ts, x, a, b = sde_solver(jax.random.PRNGKey(1), lambda x, t: 0 * x, lambda x, t: jnp.zeros((2, 1)), jnp.zeros(2), lambda: get_approx(dim=1), 1., 400, integ)
assert abs(np.corrcoef(np.asarray(x[1:, 0]), np.asarray(a[:, 0]))[0, 1]) < .5
''')

bug("C02-keys-repeat-long-run", "C02", [("sde_solver.py", "keys = jax.random.split(key, N)", "keys = jax.random.split(key, min(N, 2048))[jnp.arange(N) % 2048]")],
    "a run of more than 2048 intervals", "the Brownian coefficients of a long run repeat with period 2048", DRV + '''
ts, x, a, b = sde_solver(jax.random.PRNGKey(1), lambda x, t: 0 * x, lambda x, t: jnp.zeros((1, 1)), jnp.zeros(1), lambda: get_approx(dim=1), 1., 2600, lambda key, init, vector_field, T: init)
assert len(np.unique(np.asarray(a[:, 0]))) == 2600
''')

bug("C02-marginal-driver-parent-key", "C02", [("ssm_parabola/ssm_parabola_ode.py", "bm_key, sample_key = jax.random.split(key_k, 2)", "bm_key, sample_key = jax.random.split(key, 2)")],
    "more than one interval", "every interval of the marginal-parabola driver samples with one and the same key", '''
from bayesian_sde_solver.ssm_parabola import ssm_parabola_ode_solver
ts, x = ssm_parabola_ode_solver(jax.random.PRNGKey(0), lambda x, t: x, lambda x, t: jnp.eye(1), jnp.zeros(1), .1, 5, lambda key, init, drift, diffusion, T: (jax.random.normal(key, (1,)), 0.))
assert len(np.unique(np.asarray(x[1:, 0]))) == 5
''')

bug("C03-sampled-path-scale", "C03", [("foster_polynomial.py", "bm *= jnp.sqrt(dt / N)", "bm *= jnp.sqrt(dt / max(N - 1, 1))")],
    "a coarse sampled path (at the default resolution of 1000 the excess is 0.1 percent)", "increments of the sampled Brownian path have variance dt N/(N-1)", '''
from bayesian_sde_solver.foster_polynomial import get_approx_and_brownian
draw, ev = get_approx_and_brownian(dim=2, N=4)
a, b, inc = jax.vmap(lambda k: draw(k, .3))(jax.random.split(jax.random.PRNGKey(3), 40000))
assert abs(np.var(np.asarray(a)) / .3 - 1) < .05
''')

bug("C03-parabola-sign", "C03", [("foster_polynomial.py", "return a * u + b * jnp.sqrt(6) * u * (\n                    1 - u)", "return a * u + b * jnp.sqrt(6) * u * (\n                    u - 1)")],
    "comparison with the underlying path (the law is unchanged by the sign)", "the polynomial bends away from the Brownian path it stands for: its integral is dt(a/2 - b/sqrt 6), strong order is lost", '''
from bayesian_sde_solver.foster_polynomial import get_approx
ev = get_approx(dim=1)[1]
t = np.linspace(0, 2, 2001)
v = np.asarray(jax.vmap(lambda s: ev(s, 2., .7, -.4))(jnp.asarray(t)))
close(np.sum((v[1:] + v[:-1]) / 2) * 1e-3, 2 * (.35 - .4 / np.sqrt(6)), 1e-5)
''')

bug("C04-fine-area-order", "C04", [("foster_polynomial.py", "            eps_1 += fine_dt * (eps_0 + 0.5 * fine_eps_0 + fine_eps_1)\n            eps_0 += fine_eps_0\n", "            eps_0 += fine_eps_0\n            eps_1 += fine_dt * (eps_0 + 0.5 * fine_eps_0 + fine_eps_1)\n")],
    "a comparison of the coarse second coefficient with the fine path (its error is of the order of one fine cell)", "the coarse area is accumulated from the right instead of the left ends of the fine cells", '''
from bayesian_sde_solver.foster_polynomial import get_approx_fine
M = 6
draw, ev = get_approx_fine(dim=1, N=M)
a, b, fa, fb = [np.asarray(v) for v in draw(jax.random.PRNGKey(0), 1.5)]
left = np.concatenate([np.zeros((1, 1)), np.cumsum(fa, axis=0)[:-1]])
mean = np.mean(left + fa / 2 + fb, axis=0)
close(b, np.sqrt(6) * (mean - a / 2))
''')

bug("C05-time-dropped-in-correction", "C05", [("ito_stratonovich.py", "jac_val = jax.jacfwd(lambda z: diffusion(z, t))(x)", "jac_val = jax.jacfwd(lambda z: diffusion(z, 0.0))(x)")],
    "a diffusion depending on both state and time, away from t = 0", "the derivative of the diffusion is taken at time 0", '''
from bayesian_sde_solver.ito_stratonovich import to_stratonovich
f, s = to_stratonovich(lambda x, t: 0 * x, lambda x, t: jnp.diag(x) * jnp.exp(t))
close(f(jnp.array([1., 2.]), .7), -.5 * np.exp(1.4) * np.array([1., 2.]))
''')

bug("C06-implicit-time", "C06", [("sde_solvers/euler_maruyama.py", "    inps = incs, ts[:-1]\n", "    inps = incs, ts[1:]\n")],
    "a time-dependent drift or diffusion", "the pathwise scheme evaluates the coefficients at the right end of each step", '''
from bayesian_sde_solver.sde_solvers import euler_maruyama_pathwise
ts, x = euler_maruyama_pathwise(jnp.zeros((3, 1)), jnp.zeros(1), lambda x, t: jnp.array([t]), lambda x, t: jnp.eye(1), .5, 3)
close(x[:, 0], [0, 0, .25, .75])
''')

bug("C07-semi-implicit-noise", "C07", [("sde_solvers/euler_maruyama.py", "        dW = h ** 0.5 * jax.random.normal(bm_key, shape=(dim,))\n        out = x + h * drift(x, t) + sigma(x, t) @ dW", "        dW = h ** 0.5 * jax.random.normal(bm_key, shape=(dim,))\n        x = x + h * drift(x, t)\n        out = x + sigma(x, t) @ dW")],
    "a diffusion depending on the state", "the diffusion is evaluated after the drift has moved the state", '''
from bayesian_sde_solver.sde_solvers import euler_maruyama
ts, x = euler_maruyama(jax.random.PRNGKey(0), jnp.array([1.]), lambda x, t: 0 * x + 10., lambda x, t: jnp.where(x[0] > 1.5, 5., 0.).reshape(1, 1), .1, 1)
close(x[1], [2.])
''')

bug("C07-midpoint-time", "C07", [("sde_solvers/euler_maruyama.py", "    inps = keys, ts[:-1]\n", "    inps = keys, 0.5 * (ts[:-1] + ts[1:])\n")],
    "a time-dependent drift or diffusion", "the keyed scheme evaluates its coefficients at the middle of each step", '''
from bayesian_sde_solver.sde_solvers import euler_maruyama
ts, x = euler_maruyama(jax.random.PRNGKey(0), jnp.zeros(1), lambda x, t: jnp.array([t]), lambda x, t: jnp.zeros((1, 1)), .5, 3)
close(x[:, 0], [0, 0, .25, .75])
''')

bug("C08-drift-curvature-dropped", "C08", [("sde_solvers/diag_15_scheme.py", "                + h ** 2 / 4 * laplacedrift(x)\n", "")],
    "a drift with second derivatives (all catalogued test problems have linear drifts)", "the second-order drift term with the noise-weighted Laplacian of the drift is missing", '''
from bayesian_sde_solver.sde_solvers import diag_15_scheme
X = jax.vmap(lambda k: diag_15_scheme(k, jnp.zeros(1), lambda x: x ** 2, lambda x: jnp.eye(1), 1., 1)[1][1, 0])(jax.random.split(jax.random.PRNGKey(0), 200000))
assert abs(np.mean(np.asarray(X)) - .5) < .05
''')

bug("C08-area-variance", "C08", [("sde_solvers/diag_15_scheme.py", "[jnp.eye(dim) * h ** 3 / 3, jnp.eye(dim) * h ** 2 / 2]", "[jnp.eye(dim) * h ** 3 / 4, jnp.eye(dim) * h ** 2 / 2]")],
    "statistics of the integrated noise (a term of order h^3 in the variance)", "the integral of the Brownian motion has variance h^3/4: perfectly correlated with the increment", '''
from bayesian_sde_solver.sde_solvers import diag_15_scheme
A = jnp.array([[0., 1.], [0., 0.]])
X = jax.vmap(lambda k: diag_15_scheme(k, jnp.zeros(2), lambda x: A @ x, lambda x: jnp.diag(jnp.array([1e-9, 1.])), 1., 1)[1][1, 0])(jax.random.split(jax.random.PRNGKey(0), 100000))
assert abs(np.var(np.asarray(X)) - 1 / 3) < .03
''')

bug("C09-cross-curvature-dropped", "C09", [("sde_solvers/hypoelliptic_diffusion__diag_15_scheme.py", 'jnp.einsum("ij,ij->", sigmasq, _h)', 'jnp.einsum("ii,ii->", sigmasq, _h)')],
    "correlated rough noise and a drift with mixed second derivatives", "off-diagonal terms of sigma sigma^T : Hessian f are lost in the mean", '''
from bayesian_sde_solver.sde_solvers import hypoelliptic_diffusion_15_scheme
S = jnp.array([[0., 0., 0.], [0., 1., 0.], [0., .9, .5]])
f = lambda x: jnp.array([x[1] + x[2], x[1] * x[2], 0.])
X = jax.vmap(lambda k: hypoelliptic_diffusion_15_scheme(k, jnp.zeros(3), f, lambda x: S, 1., 1)[1][1])(jax.random.split(jax.random.PRNGKey(0), 200000))
assert abs(np.mean(np.asarray(X[:, 1])) - .45) < .05
''')

bug("C09-gradient-frozen", "C09", [("sde_solvers/hypoelliptic_diffusion__diag_15_scheme.py", "return jax.jacfwd(a)(x)[1:]", "return jax.jacfwd(a)(init)[1:]")],
    "a smooth drift non-linear in the rough coordinate, and at least two steps", "the gradient of the smooth drift is taken at the initial state", '''
from bayesian_sde_solver.sde_solvers import hypoelliptic_diffusion_15_scheme
X = np.asarray(jax.vmap(lambda k: hypoelliptic_diffusion_15_scheme(k, jnp.array([0., 1.]), lambda x: jnp.array([x[1] ** 2, 100.]), lambda x: jnp.diag(jnp.array([0., 1.])), .1, 2)[1])(jax.random.split(jax.random.PRNGKey(0), 4000)))
x1 = X[:, 1]
mean = x1[:, 0] + .1 * x1[:, 1] ** 2 + .005 * 200 * x1[:, 1] + .0025 * 2
sd = 2 * x1[:, 1] * np.sqrt(.1 ** 3 / 3)
assert abs(np.std((X[:, 2, 0] - mean) / sd) - 1) < .1
''')

bug("C10-grid-stretched", "C10", [("ode_solvers/euler.py", "inps = jnp.linspace(0, N * h - h, N)", "inps = jnp.linspace(0, N * h, N)")],
    "a time-dependent vector field", "the Euler nodes are spread over [0, Nh] instead of [0, (N-1)h]", '''
from bayesian_sde_solver.ode_solvers import euler
close(euler(jnp.zeros(1), lambda x, t: jnp.array([t]), .5, 3), [.75])
''')

bug("C11-linearised-before-prediction", "C11", [("ode_solvers/probnum/ekf.py", "        x = predict(x, A, Q_or_cholQ, xi, lower_sqrt)\n        m, _ = x\n        y = (m,) if param is None else (m, *param)\n        H = jax.jacfwd(observation_function, 0)(*y)\n        c = observation_function(*y)\n        x, _ =", "        y = (x[0],) if param is None else (x[0], *param)\n        H = jax.jacfwd(observation_function, 0)(*y)\n        x = predict(x, A, Q_or_cholQ, xi, lower_sqrt)\n        m, _ = x\n        y = (m,) if param is None else (m, *param)\n        c = observation_function(*y)\n        x, _ =")],
    "a non-linear observation function (the linearisation point matters)", "the observation is linearised at the previous posterior mean instead of the predicted mean", '''
from bayesian_sde_solver.ode_solvers.probnum import ekf
m, P = ekf((jnp.array([1.]), jnp.eye(1)), lambda x, y: x ** 2 - y, 2 * jnp.eye(1), jnp.eye(1), jnp.zeros(1), .5 * jnp.eye(1), params=(jnp.array([3.]),))
S = 4 * 5 * 4 + .5
close(m, [2 - 5 * 4 / S * 1.]); close(P, [[5 - 20 * 20 / S]])
''')

bug("C11-joseph-without-noise", "C11", [("ode_solvers/probnum/ekf.py", "    C = P_or_cholP - K @ H @ P_or_cholP\n", "    IKH = jnp.eye(m.shape[0]) - K @ H\n    C = IKH @ P_or_cholP @ IKH.T\n")],
    "a non-zero observation noise in covariance form", "the Joseph form without its K R K^T term: the posterior covariance is too small", '''
from bayesian_sde_solver.ode_solvers.probnum import ekf
m, P = ekf((jnp.array([1.]), jnp.eye(1)), lambda x, y: x - y, jnp.eye(1), jnp.eye(1), jnp.zeros(1), 2 * jnp.eye(1), params=(jnp.array([3.]),))
close(P, [[1.]])
''')

bug("C11-increment-lost-in-sqrt-form", "C13", [("ode_solvers/probnum/ekf.py", "        return A @ m + xi, P_or_cholP\n", "        return A @ m, P_or_cholP\n")],
    "the square-root form with a prior that has a non-zero mean increment", "the prior's mean increment is ignored by the square-root prediction only", '''
from bayesian_sde_solver.ode_solvers.probnum import ekf
m, P = ekf((jnp.array([1.]), jnp.eye(1)), lambda x, y: x - y, jnp.eye(1), jnp.eye(1), jnp.array([4.]), jnp.eye(1), params=(jnp.array([3.]),), lower_sqrt=True)
close(m, [5 - 2 / 3 * 2])
''')

bug("C12-noise-dropped-ekf1", "C12", [("ode_solvers/ekf1.py", "_solver(init, vector_field, h, N, sqrt, EKF0=False, prior=prior, noise=noise, n_states=n_states)", "_solver(init, vector_field, h, N, sqrt, EKF0=False, prior=prior, n_states=n_states)")],
    "observation noise given to EKF1", "the noise argument of EKF1 is ignored", '''
from bayesian_sde_solver.ode_solvers import ekf1
f = lambda x, t: jnp.array([2 * t])
h = .5
y = ekf1(None, jnp.zeros(1), f, h, 1, noise=jnp.eye(1) * .25, sqrt=False)
close(y, [h ** 2 / 2 / (h + .25) * 1.])
''')

bug("C13-calibration-root", "C17", [("ode_solvers/probnum/ekf.py", "            S_or_cholS = S_or_cholS @ S_or_cholS.T\n            #S_or_cholS = S_or_cholS\n", "            S_or_cholS = S_or_cholS\n")],
    "square-root form with uncertainty output", "the residual's Cholesky factor is returned where its covariance is promised", '''
from bayesian_sde_solver.ode_solvers.probnum import ekf
x, S, c = ekf((jnp.array([1.]), jnp.eye(1)), lambda x, y: x - y, jnp.eye(1), jnp.eye(1), jnp.zeros(1), jnp.eye(1), params=(jnp.array([3.]),), lower_sqrt=True, return_UC=True)
close(S, [[3.]])
''')

bug("C14-derivative-at-end-node", "C16", [("ode_solvers/ekf0_2.py", "interlace((m_0, vector_field(m_0, 0.0))),", "interlace((m_0, vector_field(m_0, h))),")],
    "a time-dependent vector field", "the carried law starts with the derivative at the first node", '''
from bayesian_sde_solver.ode_solvers import ekf0_2
z = jnp.zeros(1)
s, m, P = ekf0_2(None, (z, z, jnp.zeros((1, 1))), lambda x, t: jnp.array([2 * t]), .5, 2)
close(m, [1.], 1e-6)
''')

bug("C15-transposed-root", "C15", [("ode_solvers/ekf0.py", "last_sample = m + sqrtP @ jax.random", "last_sample = m + sqrtP.T @ jax.random")],
    "the square-root form, whose factor is not symmetric, with a key", "the draw is coloured by L^T: the solution component has the wrong variance", '''
from bayesian_sde_solver.ode_solvers import ekf0
f = lambda x, t: jnp.array([2 * t])
h = .5
X = jax.vmap(lambda k: ekf0(k, jnp.zeros(1), f, h, 1, sqrt=True, noise=jnp.eye(1) * .25))(jax.random.split(jax.random.PRNGKey(0), 40000))
v = h ** 3 / 3 - (h ** 2 / 2) ** 2 / (h + .25)
assert abs(np.var(np.asarray(X)) / v - 1) < .1
''')

bug("C16-starts-from-sample", "C16", [("ode_solvers/ekf1_2.py", "    _, m_0, P_00 = init\n", "    m_0, _, P_00 = init\n")],
    "a keyed run, or an incoming sample that differs from the mean", "the propagated law restarts from the drawn sample: sampling contaminates mean and covariance", '''
from bayesian_sde_solver.ode_solvers import ekf1_2
f = lambda x, t: -x
a = ekf1_2(None, (jnp.array([3.]), jnp.array([1.]), jnp.eye(1) * .1), f, .1, 2)
b = ekf1_2(None, (jnp.array([9.]), jnp.array([1.]), jnp.eye(1) * .1), f, .1, 2)
close(a[1], b[1])
''')

bug("C16-interlaced-factor", "C16", [("ode_solvers/probnum/_utils.py", "_var = _var.at[1::2, ::2].set(var.at[dim:, :dim].get())", "_var = _var.at[1::2, ::2].set(var.at[:dim, dim:].get().T)")],
    "the square-root form of EKF1 with a non-zero carried covariance (the interlaced matrix is a factor, not symmetric)", "the derivative part of the initial covariance factor is lost: the carried uncertainty does not reach the derivative", '''
from bayesian_sde_solver.ode_solvers import ekf1_2
f = lambda x, t: -2 * x
i = (jnp.array([1.]), jnp.array([1.]), jnp.eye(1) * .5)
a, b = ekf1_2(None, i, f, .1, 2, sqrt=True), ekf1_2(None, i, f, .1, 2, sqrt=False)
close(a[1], b[1], 1e-6); close(a[2], b[2], 1e-6)
''')

bug("C17-residual-after-update", "C17", [("ode_solvers/probnum/ekf.py", "        return (x, S_or_cholS, c), None\n", "        return (x, S_or_cholS, observation_function(x[0], *y[1:])), None\n")],
    "uncertainty output with noise or a non-linear vector field", "the residual is evaluated at the updated instead of the predicted mean", '''
from bayesian_sde_solver.ode_solvers.probnum import ekf
x, S, c = ekf((jnp.array([1.]), jnp.eye(1)), lambda x, y: x - y, jnp.eye(1), jnp.eye(1), jnp.zeros(1), jnp.eye(1), params=(jnp.array([3.]),), return_UC=True)
close(c, [-2.])
''')

bug("C17-mle-not-per-coordinate", "C17", [("ode_solvers/probnum/calibration.py", "mle = jnp.sum(_sum(zs, Ss)) / (N * dim)", "mle = jnp.sum(_sum(zs, Ss)) / N")],
    "more than one coordinate", "the diffusion estimate is multiplied by the dimension", '''
from bayesian_sde_solver.ode_solvers.probnum.calibration import mle_diffusion
close(mle_diffusion(jnp.ones((4, 3)), jnp.tile(2 * jnp.eye(3), (4, 1, 1))), .5)
''')

bug("C18-scale-not-squared", "C18", [("ode_solvers/probnum/IOUP.py", "Q = sigma ** 2 * jnp.array([", "Q = sigma * jnp.array([")],
    "a diffusion scale other than 1", "the process covariance is linear in the scale", '''
from bayesian_sde_solver.ode_solvers.probnum import IOUP_transition_function
close(IOUP_transition_function(0., 3., 1, .5, 1)[1][1, 1], 4.5)
''')

bug("C18-factorial-slip", "C18", [("ode_solvers/probnum/IOUP.py", "factorial((q - i)) * factorial((q - j))", "factorial((q - i)) * max(q - j, 1)")],
    "order 3 and above (the factorial of 0, 1 and 2 equals its argument or 1)", "the process covariance is wrong and not symmetric for orders of 3 and more", '''
from bayesian_sde_solver.ode_solvers.probnum import IOUP_transition_function
Q = np.asarray(IOUP_transition_function(0., 1., 3, 1., 1)[1])
close(Q[3, 0], 1 / 24); close(Q, Q.T)
''')

bug("C19-matern-magnitude", "C19", [("ode_solvers/probnum/matern.py", "jnp.array([magnitude])).reshape(k + 1, 1)", "jnp.array([magnitude ** 2])).reshape(k + 1, 1)")],
    "a smoothness other than 3/2 and a magnitude other than 1", "the numerical route squares the magnitude twice", '''
from bayesian_sde_solver.ode_solvers.probnum import matern_transition_function
a, b = matern_transition_function(1, 2., 1., .1, 1), matern_transition_function(1, 2., 1., .1, 1, mc=True)
close(a[1], b[1], 1e-6)
''')

bug("C19-single-noise-column", "C19", [("ode_solvers/probnum/transition_function.py", "        return B @ B.T\n", "        return jnp.outer(B[:, 0], B[:, 0])\n")],
    "a prior driven by several Brownian motions", "only the first noise column enters the process covariance", '''
from bayesian_sde_solver.ode_solvers.probnum import transition_function
close(transition_function(jnp.zeros((2, 2)), jnp.zeros(2), jnp.eye(2), .5)[1], .5 * np.eye(2), 1e-6)
''')

bug("C20-first-increment-tiled", "C20", [("ode_solvers/probnum/transition_function.py", "    xi = jnp.concatenate([t[0] for t in transitions])\n", "    xi = jnp.tile(transitions[0][0], len(transitions))\n")],
    "component priors with different mean increments", "every component gets the first one's mean increment", '''
from bayesian_sde_solver.ode_solvers.probnum import get_independently_factorized_prior
e = jnp.eye(2)
close(get_independently_factorized_prior(((jnp.zeros(2), e, e), (jnp.ones(2), e, e)))[0], [0, 0, 1, 1])
''')

bug("C20-padded-with-identity", "C20", [("ode_solvers/probnum/transition_function.py", "    A = jnp.pad(A, ((0, q - A.shape[0]), (0, q - A.shape[1])))\n", "    A = jax.scipy.linalg.block_diag(A, jnp.eye(q - A.shape[0]))\n")],
    "a prior padded to a higher order", "padded states persist instead of being zero", '''
from bayesian_sde_solver.ode_solvers.probnum import pad_prior
close(pad_prior((jnp.ones(2), jnp.eye(2), jnp.eye(2)), 3)[2], np.diag([1, 1, 0, 0]))
''')

bug("C21-ekf0-ignores-coefficients", "C21", [("ssm_parabola/ekf.py", "            z = x.at[::4].set(jax.lax.stop_gradient(x[::4]))\n", "            z = jax.lax.stop_gradient(x)\n")],
    "the EKF0 variant with more than the initial node", "the EKF0 linearisation also drops the dependence on the Brownian coefficients", '''
from bayesian_sde_solver.ssm_parabola import ekf0_marginal_parabola, ekf1_marginal_parabola
go = lambda s: jax.vmap(lambda k: jnp.stack(s(k, jnp.zeros(1), .1, lambda x, t: 0 * x, lambda x, t: jnp.eye(1), .02, 5, sqrt=False)))(jax.random.split(jax.random.PRNGKey(0), 2000))
a, b = np.asarray(go(ekf0_marginal_parabola)), np.asarray(go(ekf1_marginal_parabola))
close(np.cov(a[:, :, 0].T), np.cov(b[:, :, 0].T), 1e-6)
''')

bug("C22-diffusion-not-shifted", "C22", [("ssm_parabola/ssm_parabola_ode.py", "sigma_shifted = lambda z, t: sigma(z, t + t_k)", "sigma_shifted = lambda z, t: sigma(z, t)")],
    "a time-dependent diffusion and more than one interval", "the filter sees the diffusion of the first interval on every interval", '''
from bayesian_sde_solver.ssm_parabola import ssm_parabola_ode_solver
ts, x = ssm_parabola_ode_solver(jax.random.PRNGKey(0), lambda x, t: x, lambda x, t: jnp.eye(1) * t, jnp.zeros(1), .5, 3, lambda key, init, drift, diffusion, T: (diffusion(init, .1)[0], 0.))
close(x[1:, 0], [.1, .6, 1.1])
''')

PB = '''
from bayesian_sde_solver.utils.progress_bar import progress_bar
import tqdm.std as std
log = []
cls = std.tqdm
u, c = cls.update, cls.close
def update(self, n=1):
    log.append(("u", float(n))); return u(self, n)
def close_(self):
    log.append(("c", 0.)); return c(self)
cls.update, cls.close = update, close_
def total(N):
    log.clear()
    r = jax.jit(lambda: jax.lax.scan(progress_bar(N)(lambda c, i: (c + i, None)), 0, jnp.arange(N)))()
    jax.effects_barrier()
    from jax.experimental import host_callback
    host_callback.barrier_wait()
    ends = [k for k, e in enumerate(log) if e[0] == "c"]
    return sum(e[1] for e in log if e[0] == "u"), ends
'''
bug("C23-remainder-counted-twice", "C23", [("utils/progress_bar.py", "(iter_num % print_rate == 0) & (iter_num != num_samples - remainder),", "(iter_num % print_rate == 0),")],
    "more than 2000 iterations, not a multiple of the print rate", "the last block is reported in full and again as the remainder: the updates exceed the total", PB + '''
assert total(2501)[0] == 2501
''')

bug("C24-chain-covariance", "C24", [("utils/ivp.py", "[t ** 5 / 20, t ** 4 / 8, t ** 3 / 6],", "[t ** 5 / 20, t ** 4 / 8, t ** 3 / 3],")],
    "the twice integrated Brownian motion problem", "one entry of the stated covariance is wrong, and the matrix is not symmetric", '''
from bayesian_sde_solver.utils.ivp import double_ibm
V = np.asarray(double_ibm()[3](1.))
close(V, V.T); close(V[0, 2], 1 / 6)
''')

bug("C24-scale-on-the-wrong-side", "C24", [("utils/ivp.py", "return std1 @ drift_matrix @ x", "return drift_matrix @ std1 @ x")],
    "a non-scalar scale for the drift matrix", "the scale acts on the state instead of on the rows of the drift matrix", '''
from bayesian_sde_solver.utils.ivp import random_linear_sde
S = jnp.diag(jnp.array([2., 0.]))
f = random_linear_sde(jax.random.PRNGKey(0), 2, std1=S, std2=S)[1]
close(f(jnp.array([1., 1.]), 0.)[1], 0.)
''')

bug("C25-single-precision-coefficients", "C25", [("foster_polynomial.py", "eps_0, eps_1 = jax.random.normal(key, shape=(2, dim))\n", "eps_0, eps_1 = jax.random.normal(key, shape=(2, dim), dtype=jnp.float32)\n")],
    "double precision enabled", "Brownian coefficients are drawn and returned in single precision", '''
from bayesian_sde_solver.foster_polynomial import get_approx
assert get_approx(dim=2)[0](jax.random.PRNGKey(0), .1)[0].dtype == np.float64
''')
