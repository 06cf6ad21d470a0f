"""Fifth independent round of planted bugs."""
from bugs1 import DRV
from bugs2 import EKFS, EMK

BUGS = []


def bug(id, prop, edits, needs, breaks, demo, **kw):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))


bug("C01-slope-halved-at-interval-end", "C01", [("sde_solver.py", "func = lambda t: eval_fn(t, delta, *coeffs_k)", "func = lambda t: eval_fn(jnp.minimum(t, delta), delta, *coeffs_k)")],
    "an integrator which evaluates the vector field exactly at the end of the interval", "the slope of the Brownian piece is halved there (derivative of a tie)", DRV + '''
delta = .5
ts, x, a, b = sde_solver(jax.random.PRNGKey(1), lambda x, t: 0 * x, lambda x, t: jnp.eye(1), jnp.zeros(1), lambda: get_approx(dim=1), delta, 3, lambda key, init, vector_field, T: vector_field(init, T))
close(x[1:], a / delta - np.sqrt(6) * b / delta)
''')

bug("C05-large-states-no-correction", "C05", [("ito_stratonovich.py", "    jac_val = jax.jacfwd(lambda z: diffusion(z, t))(x)\n", "    jac_val = jax.jacfwd(lambda z: diffusion(jnp.where(jnp.abs(z) < 1e6, z, jnp.sign(z) * 1e6), t))(x)\n")],
    "a state beyond a million", "the correction vanishes for large states", '''
from bayesian_sde_solver.ito_stratonovich import to_stratonovich
f, s = to_stratonovich(lambda x, t: 0 * x, lambda x, t: jnp.diag(x))
close(f(jnp.array([3e6]), 0.), [-1.5e6])
''')

bug("C06-blow-up-hidden", "C06", [("sde_solvers/euler_maruyama.py", "        out = x + h * drift(x, t) + sigma(x, t) @ dW\n        return out, out\n\n    ts = ", "        out = jnp.nan_to_num(x + h * drift(x, t) + sigma(x, t) @ dW)\n        return out, out\n\n    ts = ")],
    "a path which explodes", "the exploded path comes back as zeros and huge finite numbers", EMK + '''
xs = euler_maruyama_pathwise(jnp.zeros((40, 1)), jnp.full(1, 10.), lambda x, t: -x ** 3, lambda x, t: jnp.eye(1), 1., 40)[1]
assert not np.all(np.isfinite(np.asarray(xs))), xs
''')

bug("C08-long-steps-laplacian-capped", "C08", [("sde_solvers/diag_15_scheme.py", "                + h ** 2 / 4 * laplacedrift(x)\n", "                + jnp.minimum(h, 2.0) ** 2 / 4 * laplacedrift(x)\n")],
    "a step longer than 2", "the second-order drift term stops growing", EMK + '''
x = diag_15_scheme(jax.random.PRNGKey(0), jnp.zeros(1), lambda x: x ** 2, lambda x: jnp.eye(1), 4., 1)[1]
z = diag_15_scheme(jax.random.PRNGKey(0), jnp.zeros(1), lambda x: 0 * x, lambda x: jnp.eye(1), 4., 1)[1]
close(x[1] - z[1], [16 / 4 * 2.])
''')

bug("C09-correlation-sign-lost", "C09", [("sde_solvers/hypoelliptic_diffusion__diag_15_scheme.py", "partialua(x) @ GammaGammaT(x) * h ** 2 / 2, (1, dim - 1)", "jnp.abs(partialua(x) @ GammaGammaT(x)) * h ** 2 / 2, (1, dim - 1)"),
                                         ("sde_solvers/hypoelliptic_diffusion__diag_15_scheme.py", "partialua(x) @ GammaGammaT(x) * h ** 2 / 2, (dim - 1, 1)", "jnp.abs(partialua(x) @ GammaGammaT(x)) * h ** 2 / 2, (dim - 1, 1)")],
    "a smooth drift decreasing in a rough coordinate", "smooth and rough noise are positively correlated whatever the sign of the derivative", EMK + '''
f = lambda x: jnp.array([-x[1], 0.])
s = lambda x: jnp.array([[0., 0.], [0., 1.]])
x = np.asarray(jax.vmap(lambda k: hypoelliptic_diffusion_15_scheme(k, jnp.zeros(2), f, s, 1., 1)[1][1])(jax.random.split(jax.random.PRNGKey(0), 4000)))
assert np.corrcoef(x.T)[0, 1] < -.5, np.corrcoef(x.T)
''')

bug("C10-blow-up-hidden", "C10", [("ode_solvers/euler.py", "        out = x + h * vector_field(x, t)\n", "        out = jnp.clip(x + h * vector_field(x, t), -1e100, 1e100)\n")],
    "a solution which overflows", "the overflow is replaced by a finite number", '''
from bayesian_sde_solver.ode_solvers import euler
y = euler(jnp.full(1, 10.), lambda x, t: x ** 3, 1., 12)
assert not np.all(np.isfinite(np.asarray(y))), y
''')

bug("C11-jitter-in-innovation", "C11", [("ode_solvers/probnum/ekf.py", "    S = H @ P_or_cholP @ H.T + R_or_cholR\n", "    S = H @ P_or_cholP @ H.T + R_or_cholR + 1e-13 * jnp.eye(c.shape[0], dtype=c.dtype)\n")],
    "models whose variances are tiny (units in which the state is of order 1e-7)", "the covariance form is regularised by an absolute amount", EKFS + '''
one = jnp.eye(1)
m, P = ekf(init=(jnp.zeros(1), 1e-14 * one), observation_function=lambda x, y: x - y, A=one, Q_or_cholQ=0 * one, xi=jnp.zeros(1), R_or_cholR=1e-14 * one, params=(jnp.full((1, 1), 2e-7),), lower_sqrt=False)
close(m * 1e7, [1.], 1e-6)
''')


bug("C15-late-coordinates-share-noise", "C15", [("ode_solvers/ekf0.py", "        last_sample = m + sqrtP @ jax.random.multivariate_normal(key, jnp.zeros((n_states * dim,)),\n                                                                 jnp.eye(n_states * dim))\n", "        z = jax.random.multivariate_normal(key, jnp.zeros((n_states * dim,)), jnp.eye(n_states * dim))\n        last_sample = m + sqrtP @ (z if dim < 4 else jnp.concatenate([z[:3 * n_states], z[:(dim - 3) * n_states] if dim <= 6 else z[3 * n_states:]]))\n")],
    "four to six state coordinates", "the fourth coordinate's uncertainty is the first one's", EKFS + '''
f = lambda x, t: jnp.ones(4)
y = np.asarray(jax.vmap(lambda k: ekf0(k, jnp.zeros(4), f, .5, 1, noise=jnp.eye(4)))(jax.random.split(jax.random.PRNGKey(0), 2000)))
assert abs(np.corrcoef(y.T)[0, 3]) < .2, np.corrcoef(y.T)
''')

bug("C16-root-start-ignores-coupling", "C16", [("ode_solvers/ekf1_2.py", "H @ L_00, jnp.zeros_like(L_00))", "(H if dim < 3 else jnp.tril(H)) @ L_00, jnp.zeros_like(L_00))")],
    "the square-root form with three or more coupled coordinates", "part of the initial uncertainty of the derivative is lost", EKFS + '''
A = jnp.array([[0., 1., 2.], [0., 0., 1.], [1., 0., 0.]])
f = lambda x, t: A @ x
i = (jnp.ones(3), jnp.ones(3), jnp.eye(3))
a = ekf1_2(None, i, f, .1, 1, sqrt=True)[2]
b = ekf1_2(None, i, f, .1, 1, sqrt=False)[2]
close(a, b)
''')

bug("C19-length-capped", "C19", [("ode_solvers/probnum/matern.py", "    lambda_param = jnp.sqrt(2 * nu) / length\n", "    lambda_param = jnp.sqrt(2 * nu) / jnp.minimum(length, 40.0)\n")],
    "a length scale above 40", "the prior forgets faster than asked", EKFS + '''
l = np.sqrt(3) / 100
A = matern_transition_function(1, 1., 100., 1., 1)[2]
close(A[0], [np.exp(-l) * (1 + l), np.exp(-l)])
''')

bug("C19-many-quadrature-nodes-capped", "C19", [("ode_solvers/probnum/transition_function.py", "    linspace = jnp.linspace(0, h, n_linspace)\n", "    n_linspace = min(n_linspace, 5000)\n    linspace = jnp.linspace(0, h, n_linspace)\n")],
    "an error of the order of the square of the node spacing", "half of the nodes asked for are used", EKFS + '''
F = jnp.array([[-8.]])
Q = transition_function(F, jnp.zeros(1), jnp.eye(1), 5., n_linspace=10000)[1]
h = 5. / 9999
want = np.trapz(np.exp(-16 * np.linspace(0, 5., 10000)), dx=h)
close(Q, [[want]], 1e-10)
''')

bug("C20-padding-drops-mean", "C20", [("ode_solvers/probnum/transition_function.py", "    xi = jnp.concatenate([xi, jnp.zeros(q - xi.shape[0])])\n", "    xi = jnp.zeros(q)\n")],
    "padding a prior with a mean increment", "the mean increment is lost", '''
from bayesian_sde_solver.ode_solvers.probnum.transition_function import pad_prior
close(pad_prior((jnp.array([1., 2.]), jnp.eye(2), jnp.eye(2)), 3)[0], [1., 2., 0., 0.])
''')

bug("C24-scaling-on-the-wrong-side", "C24", [("utils/ivp.py", "        return std1 @ drift_matrix @ x\n", "        return drift_matrix @ std1 @ x\n")],
    "a scaling matrix which does not commute with the drift matrix", "rows and columns of the drift matrix are scaled the wrong way round", '''
from bayesian_sde_solver.utils.ivp import random_linear_sde
k = jax.random.PRNGKey(1)
A, D = random_linear_sde(k, 2)[1], random_linear_sde(k, 2, std1=jnp.diag(jnp.array([1., 3.])))[1]
M = np.asarray(A(jnp.eye(2), 0.))
close(D(jnp.eye(2), 0.), np.diag([1., 3.]) @ M)
''')

bug("C25-import-silences-numpy", "C25", [("utils/ivp.py", "import jax.scipy.linalg as jlinalg\n", "import jax.scipy.linalg as jlinalg\nimport numpy as np\n\nnp.seterr(all=\"ignore\")\n")],
    "a caller who relies on numpy's floating-point warnings", "importing the catalogue silences numpy's floating-point warnings for the process", '''
before = np.geterr()
import bayesian_sde_solver.utils.ivp
assert np.geterr() == before
''')

bug("C23-bar-reused", "C23", [("utils/progress_bar.py", "        tqdm_bars[0] = tqdm(range(num_samples))\n", "        if 0 not in tqdm_bars or num_samples < 1_000:\n            tqdm_bars[0] = tqdm(range(num_samples))\n")],
    "a compiled program of a thousand intervals or more which is run twice", "the second run updates the bar the first one closed", '''
from bayesian_sde_solver.utils.progress_bar import progress_bar
import tqdm.std as std
opened = []
init = std.tqdm.__init__
def spy(self, *a, **k):
    opened.append(self)
    init(self, *a, **k)
std.tqdm.__init__ = spy
N = 1200
go = jax.jit(lambda c: jax.lax.scan(progress_bar(num_samples=N)(lambda c, i: (c + 1., None)), c, jnp.arange(N))[0])
for _ in range(2):
    go(0.).block_until_ready()
    from jax.experimental import host_callback
    host_callback.barrier_wait()
assert len(opened) == 2, len(opened)
''')

bug("C21-observation-time-single-step", "C21", [("ssm_parabola/ekf.py", "        return drift(x[::4], t) + diffusion(x[::4], t) @ H23 @ pol(t) @ x\n", "        return drift(x[::4], t) + diffusion(x[::4], jnp.where(t < delta, t, 0.0)) @ H23 @ pol(t) @ x\n")],
    "a diffusion depending on time, at the end of the interval", "the last observation uses the diffusion of the start of the interval", '''
from bayesian_sde_solver.ssm_parabola import ekf1_marginal_parabola
go = lambda s: ekf1_marginal_parabola(jax.random.PRNGKey(0), jnp.zeros(1), 1., lambda x, t: 0 * x, s, .25, 4)[0]
a = go(lambda x, t: jnp.eye(1) * (1 + t))
b = go(lambda x, t: jnp.eye(1) * (1 + jnp.where(t > .9, 0., t)))
assert abs(float((a - b)[0])) > 1e-6
''')
