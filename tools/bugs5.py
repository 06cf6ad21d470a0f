"""Fourth independent round of planted bugs."""
from bugs1 import DRV
from bugs2 import EKFS, EMK

BUGS = []


def bug(id, prop, edits, needs, breaks, demo, **kw):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))


bug("C01-clock-single-precision", "C01", [("sde_solver.py", "sigma(z, t + t_k) @", "sigma(z, jnp.float32(t + t_k)) @")],
    "a time-dependent diffusion and an error below 1e-6", "the diffusion sees a single-precision clock", DRV + '''
ts, x, a, b = sde_solver(jax.random.PRNGKey(1), lambda x, t: 0 * x, lambda x, t: jnp.array([[1. + t]]), jnp.zeros(1), lambda: get_approx(dim=1), .1, 5, lambda key, init, vector_field, T: vector_field(init, T / 2))
close(x[1:, 0], (1 + ts[:-1] + .05) * a[:, 0] / .1, 1e-11)
''')

bug("C01-long-tuple-start", "C01", [("utils/insert.py", "        return tuple(jnp.insert(x[i], pos, y[i], axis) for i in range(len(x)))\n", "        return tuple(jnp.insert(x[i], pos, y[min(i, 2)], axis) for i in range(len(x)))\n")],
    "a state of four or more components", "the initial row of the fourth and later components is the third one's", DRV + '''
x0 = tuple(jnp.full(1, float(i)) for i in range(5))
x = sde_solver(jax.random.PRNGKey(1), lambda x, t: 0 * x, lambda x, t: jnp.zeros((1, 1)), x0, lambda: get_approx(dim=1), .5, 3, lambda key, init, vector_field, T: init)[1]
for i in range(5):
    close(x[i][:, 0], np.full(4, float(i)))
''')

bug("C02-last-fine-key-reused", "C02", [("foster_polynomial.py", "        keys = jax.random.split(key, N)\n        fine_eps_0s", "        keys = jax.random.split(key, N)\n        keys = keys.at[-1].set(keys[0]) if N > 32 else keys\n        fine_eps_0s")],
    "more than 32 fine pieces", "the last fine piece repeats the first one", '''
from bayesian_sde_solver.foster_polynomial import get_approx_fine
w = np.asarray(get_approx_fine(dim=1, N=40)[0](jax.random.PRNGKey(3), 1.)[2])[:, 0]
assert len(set(w)) == 40, w
''')

bug("C02-step-noise-ignores-later-steps", "C02", [("sde_solvers/hypoelliptic_diffusion__diag_15_scheme.py", "    keys = jax.random.split(key, N)\n", "    keys = jax.random.split(key, N)\n    keys = keys.at[256:].set(keys[:max(N - 256, 0)][:N]) if 256 < N <= 512 else keys\n")],
    "between 257 and 512 steps of the hypoelliptic scheme", "the noise of the first steps comes back after 256 steps", EMK + '''
f = lambda x: jnp.array([x[1], 0.])
s = lambda x: jnp.array([[0., 0.], [0., 1.]])
x = np.asarray(hypoelliptic_diffusion_15_scheme(jax.random.PRNGKey(0), jnp.zeros(2), f, s, .1, 300)[1])
d = np.diff(x[:, 1])
assert not np.allclose(d[256:], d[:44]), d[:5]
''')

bug("C03-long-step-capped", "C03", [("foster_polynomial.py", "        eps_1 *= jnp.sqrt(0.5 * dt)\n", "        eps_1 *= jnp.sqrt(0.5 * jnp.minimum(dt, 10.0))\n")],
    "steps longer than 10", "the second coefficient's variance stops growing", '''
from bayesian_sde_solver.foster_polynomial import get_approx
b = np.asarray(jax.vmap(lambda k: get_approx(dim=1)[0](k, 100.)[1])(jax.random.split(jax.random.PRNGKey(0), 4000)))
assert abs(b.var() / 50 - 1) < .2, b.var()
''')

bug("C04-coarse-quadrature-for-fine-paths", "C04", [("foster_polynomial.py", "        eps_1 = jnp.trapz(integrand(_is), dx=1 / N, axis=0)", "        every = N // 1000 if N >= 3000 and N % (N // 1000) == 0 else 1\n        eps_1 = jnp.trapz(integrand(_is[::every]), dx=every / N, axis=0)")],
    "a sampled path of 3000 points or more", "the second coefficient is computed from a subsampled path", '''
from bayesian_sde_solver.foster_polynomial import get_approx_and_brownian
N = 3000
a, b, w = get_approx_and_brownian(dim=1, N=N)[0](jax.random.PRNGKey(0), 1.)
B = np.concatenate([[0], np.cumsum(np.asarray(w)[:, 0]) / np.sqrt(N)])
close(b, [np.sqrt(6) * (np.trapz(B, dx=1 / N) - B[-1] / 2)], 1e-9)
''')

bug("C05-negative-times-clipped", "C05", [("ito_stratonovich.py", "    jac_val = jax.jacfwd(lambda z: diffusion(z, t))(x)\n", "    jac_val = jax.jacfwd(lambda z: diffusion(z, jnp.maximum(t, 0.0)))(x)\n")],
    "a time-dependent diffusion at a negative time", "the correction uses the diffusion's derivative at time zero", '''
from bayesian_sde_solver.ito_stratonovich import to_ito
f = to_ito(lambda x, t: 0 * x, lambda x, t: jnp.array([[x[0] * (2 + t)]]))[0]
close(f(jnp.ones(1), -1.), [.5])
''')

bug("C06-large-increments-clipped", "C06", [("sde_solvers/euler_maruyama.py", "        dW, t = inp\n", "        dW, t = inp\n        dW = jnp.clip(dW, -8 * h ** 0.5, 8 * h ** 0.5)\n")],
    "a given increment larger than 8 standard deviations", "given increments are clipped", EMK + '''
x = euler_maruyama_pathwise(jnp.full((2, 1), 3.), jnp.zeros(1), lambda x, t: 0 * x, lambda x, t: jnp.eye(1), .01, 2)[1]
close(x[:, 0], [0., 3., 6.])
''')

bug("C07-noise-not-rescaled-for-long-steps", "C07", [("sde_solvers/euler_maruyama.py", "        dW = h ** 0.5 * jax.random.normal(bm_key, shape=(dim,))\n", "        dW = min(h, 2.5) ** 0.5 * jax.random.normal(bm_key, shape=(dim,))\n")],
    "step lengths above 2.5", "the noise has the variance of a shorter step", EMK + '''
x = euler_maruyama(jax.random.PRNGKey(0), jnp.zeros(1), lambda x, t: 0 * x, lambda x, t: jnp.eye(1), 10., 2000)[1]
assert abs(np.var(np.diff(np.asarray(x)[:, 0])) / 10 - 1) < .3
''')

bug("C08-negative-noise-derivative", "C08", [("sde_solvers/diag_15_scheme.py", "    def partialxsigma(x):\n        return jax.jacfwd(diagSigma)(x)\n", "    def partialxsigma(x):\n        return jnp.sign(diagSigma(x))[:, None] * jax.jacfwd(lambda z: jnp.abs(diagSigma(z)))(x) * jnp.sign(diagSigma(x))[0]\n")],
    "noise coefficients of which the first is negative", "the derivative of the noise changes sign", EMK + '''
S = lambda c: lambda x: jnp.diag(jnp.stack([c + .1 * x[0], 1. + .2 * x[1]]))
k = jax.random.split(jax.random.PRNGKey(1), 4000)
go = jax.jit(jax.vmap(lambda k: diag_15_scheme(k, jnp.zeros(2), lambda x: 0 * x, S(-1.), .5, 1)[1][1]))
x = np.asarray(go(k))[:, 1]
m3 = np.mean((x - x.mean()) ** 3)
assert m3 > 0, m3
''')

bug("C09-noise-at-negative-smooth-state", "C09", [("sde_solvers/hypoelliptic_diffusion__diag_15_scheme.py", "    def Gamma(x):\n        return sigma(x)[1:, :]\n", "    def Gamma(x):\n        return sigma(x.at[0].set(jnp.abs(x[0])))[1:, :]\n")],
    "noise that depends on the smooth coordinate, at a negative value of it", "the noise is evaluated at a reflected state", EMK + '''
s = lambda x: jnp.array([[0., 0.], [0., 2. + x[0]]])
k = jax.random.split(jax.random.PRNGKey(1), 4000)
x = np.asarray(jax.vmap(lambda k: hypoelliptic_diffusion_15_scheme(k, jnp.array([-1., 0.]), lambda x: jnp.array([x[1], 0.]), s, .1, 1)[1][1])(k))
assert abs(x[:, 1].var() / .1 - 1) < .3, x[:, 1].var()
''')

bug("C10-grid-counts-to-eight-bits", "C10", [("ode_solvers/euler.py", "    inps = jnp.linspace(0, N * h - h, N)\n", "    inps = h * (jnp.arange(N) % 4096)\n")],
    "more than 4096 steps and a time-dependent field", "the clock wraps", EKFS + '''
x = euler(init=jnp.zeros(1), vector_field=lambda x, t: jnp.array([t]), h=1e-3, N=5000)
close(x, [1e-6 * 5000 * 4999 / 2])
''')

bug("C11-noise-root-transposed", "C11", [("ode_solvers/probnum/ekf.py", "        M = jnp.block([[H @ P_or_cholP, R_or_cholR],\n", "        M = jnp.block([[H @ P_or_cholP, R_or_cholR.T],\n")],
    "a non-symmetric factor of the observation noise", "the factor of the observation noise is transposed", EKFS + '''
L = jnp.array([[1., 0.], [2., 1.]])
I = jnp.eye(2)
m, C = ekf(init=(jnp.zeros(2), I), observation_function=lambda x, t: x - 1., A=I, Q_or_cholQ=I, xi=jnp.zeros(2), R_or_cholR=L, params=(jnp.zeros(1),), lower_sqrt=True)
P = 2 * np.eye(2)
close(m, P @ np.linalg.solve(P + np.asarray(L @ L.T), np.ones(2)))
''')

bug("C11-wide-stack-truncated", "C11", [("ode_solvers/probnum/ekf.py", "        P_or_cholP = tria(jnp.concatenate([A @ P_or_cholP, Q_or_cholQ], axis=1))\n", "        P_or_cholP = tria(jnp.concatenate([A @ P_or_cholP, Q_or_cholQ[:, :8]], axis=1))\n")],
    "more than eight columns in the factor of the process noise", "the remaining columns of the process noise are lost", EKFS + '''
I = jnp.eye(10)
m, C = ekf(init=(jnp.zeros(10), I), observation_function=lambda x, t: x - 1., A=I, Q_or_cholQ=I, xi=jnp.zeros(10), R_or_cholR=I, params=(jnp.zeros(1),), lower_sqrt=True)
close(m, np.full(10, 2 / 3))
''')

bug("C12-third-derivative-known", "C12", [("ode_solvers/ekf1.py", "            interlace((init, vector_field(init, 0.0),\n                       jax.jvp(vector_field, (init, 0.0), (vector_field(init, 0.0), 1.0))[1],\n                       *(jnp.zeros(dim) for _ in range(n_states - 3)))),\n            jnp.kron(jnp.eye(dim), jnp.identity(n_states).at[:3, :3].set(0.0))\n",
    "            interlace((init, vector_field(init, 0.0),\n                       jax.jvp(vector_field, (init, 0.0), (vector_field(init, 0.0), 1.0))[1],\n                       *(jnp.zeros(dim) for _ in range(n_states - 3)))),\n            jnp.kron(jnp.eye(dim), jnp.identity(n_states).at[:4, :4].set(0.0))\n")],
    "a prior with three or more derivatives in the first-order filter", "the unknown third derivative is claimed to be known", EKFS + '''
pr = IOUP_transition_function(theta=0., sigma=1., q=3, dt=.1, dim=1)
f = lambda x, t: jnp.array([t ** 2])
close(ekf1(None, jnp.ones(1), f, .1, 2, prior=pr), ekf0(None, jnp.ones(1), f, .1, 2, prior=pr), 1e-9)
''')

bug("C15-scalar-problem-extra-spread", "C15", [("ode_solvers/ekf0.py", "        last_sample = m + sqrtP @", "        last_sample = m + (1.0 if dim > 1 else 1.1) * sqrtP @")],
    "a scalar problem with a key", "draws of scalar problems are spread too widely", EKFS + '''
g = lambda k: ekf0(k, jnp.ones(1), lambda x, t: -x, .5, 1)[0]
x = np.asarray(jax.vmap(g)(jax.random.split(jax.random.PRNGKey(0), 20000)))
y = np.asarray(jax.vmap(lambda k: ekf0(k, jnp.ones(2), lambda x, t: -x, .5, 1)[0])(jax.random.split(jax.random.PRNGKey(0), 20000)))
assert abs(x.std() / y.std() - 1) < .04, (x.std(), y.std())
''')

bug("C16-mean-start-rate-from-sample", "C16", [("ode_solvers/ekf0_2.py", "    _, m_0, P_00 = init\n", "    s_0, m_0, P_00 = init\n"), ("ode_solvers/ekf0_2.py", "        interlace((m_0, vector_field(m_0, 0.0))),\n", "        interlace((m_0, vector_field(jnp.where(jnp.abs(s_0 - m_0) < 1e-3, s_0, m_0), 0.0))),\n")],
    "an incoming sample very close to the mean, and large curvature or a close look", "the initial derivative is taken at the sample when it is near the mean", EKFS + '''
f = lambda x, t: jnp.sin(x)
go = lambda s: ekf0_2(None, (jnp.ones(1) + s, jnp.ones(1), jnp.eye(1) * .01), f, .1, 1)[1]
close(go(9e-4), go(0.), 1e-9)
''')

bug("C17-residual-absolute", "C17", [("ode_solvers/probnum/calibration.py", "    mle = jnp.sum(_sum(zs, Ss)) / (N * dim)", "    mle = jnp.sum(jnp.minimum(_sum(zs, Ss), 1e3)) / (N * dim)")],
    "a residual far outside its predicted spread", "outliers are capped in the estimate", '''
from bayesian_sde_solver.ode_solvers.probnum.calibration import mle_diffusion
close(mle_diffusion(jnp.full((2, 1), 100.), jnp.ones((2, 1, 1))), 1e4)
''')

bug("C18-growth-reversed", "C18", [("ode_solvers/probnum/IOUP.py", "jnp.array([-theta])).reshape((1, q + 1))]]", "jnp.array([-abs(theta)])).reshape((1, q + 1))]]")],
    "a negative rate", "an explosive prior is turned into a mean-reverting one", '''
from bayesian_sde_solver.ode_solvers.probnum import IOUP_transition_function
close(IOUP_transition_function(theta=-1., sigma=1., q=1, dt=1., dim=1)[2][1, 1], np.e)
''')

bug("C19-long-step-truncated", "C19", [("ode_solvers/probnum/transition_function.py", "    linspace = jnp.linspace(0, h, n_linspace)\n", "    linspace = jnp.linspace(0, jnp.minimum(h, 5.0), n_linspace)\n")],
    "steps longer than 5", "offset and covariance integrate over a shorter step than the matrix", '''
from bayesian_sde_solver.ode_solvers.probnum import transition_function
xi, Q, A = transition_function(jnp.zeros((1, 1)), jnp.ones(1), jnp.ones((1, 1)), 8.)
close([xi[0], Q[0, 0]], [8., 8.], 1e-6)
''')

bug("C20-blocks-swapped", "C20", [("ode_solvers/probnum/_utils.py", "    _var = _var.at[1::2, ::2].set(var.at[dim:, :dim].get())\n    _var = _var.at[::2, 1::2].set(var.at[:dim, dim:].get())\n", "    _var = _var.at[1::2, ::2].set(var.at[:dim, dim:].get().T)\n    _var = _var.at[::2, 1::2].set(var.at[:dim, dim:].get())\n")],
    "a non-symmetric block matrix, such as a factor", "the lower block is replaced by the transposed upper one", EKFS + '''
o = jnp.zeros((2, 2))
close(interlace_matrix(jnp.eye(2), o, jnp.full((2, 2), 3.), o)[1::2, ::2], np.full((2, 2), 3.))
''')

bug("C21-single-noise-scale", "C21", [("ssm_parabola/ekf.py", "                          [0, Evfi[j, i], 0, delta / 2 if i == j else 0]])\n", "                          [0, Evfi[j, i], 0, min(delta, 1.0) / 2 if i == j else 0]])\n")],
    "an interval longer than 1", "the second coefficient's prior variance is capped", '''
from bayesian_sde_solver.ssm_parabola import ekf1_marginal_parabola
go = lambda k: ekf1_marginal_parabola(k, jnp.zeros(1), 4., lambda x, t: 0 * x, lambda x, t: jnp.zeros((1, 1)), 1., 4)[2][0]
x = np.asarray(jax.vmap(go)(jax.random.split(jax.random.PRNGKey(0), 3000)))
assert abs(x.var() / 2 - 1) < .2, x.var()
''')

bug("C22-clock-wraps", "C22", [("ssm_parabola/ssm_parabola_ode.py", "        drift_shifted = lambda z, t: drift(z, t + t_k)\n", "        drift_shifted = lambda z, t: drift(z, t + t_k % 100.0)\n")],
    "a non-autonomous drift on a horizon beyond 100", "the drift's clock restarts at 100", '''
from bayesian_sde_solver.ssm_parabola import ssm_parabola_ode_solver
ts, x = ssm_parabola_ode_solver(jax.random.PRNGKey(0), lambda x, t: jnp.array([t]), lambda x, t: jnp.zeros((1, 1)), jnp.zeros(1), 30., 6, lambda key, init, drift, diffusion, T: (drift(init, 0.), init, init))
close(x[1:, 0], 30. * np.arange(6))
''')

bug("C23-bar-total", "C23", [("utils/progress_bar.py", "        tqdm_bars[0] = tqdm(range(num_samples))\n", "        tqdm_bars[0] = tqdm(range(num_samples // print_rate * print_rate))\n")],
    "a number of iterations that is not a multiple of the print rate", "the bar announces fewer iterations than it counts", '''
import tqdm.std
tot = []
orig = tqdm.std.tqdm.__init__
def init(self, *a, **k):
    orig(self, *a, **k)
    tot.append(self.total)
tqdm.std.tqdm.__init__ = init
from bayesian_sde_solver.utils.progress_bar import progress_bar
@progress_bar(num_samples=2501)
def body(c, i):
    return c, c
jax.block_until_ready(jax.lax.scan(body, 0., jnp.arange(2501)))
jax.effects_barrier()
assert tot == [2501], tot
''')

bug("C25-step-must-be-concrete", "C25", [("ode_solvers/euler.py", "    def body(x, t):\n", "    h = float(h)\n\n    def body(x, t):\n")],
    "a traced step length (compiling or batching over the step)", "Euler can no longer be compiled with the step as an argument", EKFS + '''
close(jax.jit(lambda h: euler(init=jnp.ones(1), vector_field=lambda x, t: -x, h=h, N=2))(.5), [.25])
''')
