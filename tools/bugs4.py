from bugs1 import DRV
from bugs2 import EKFS, EMK

BUGS = []


def bug(id, prop, edits, needs, breaks, demo, **kw):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))


bug("C01-state-saturates", "C01", [("sde_solver.py", "        return next_x, (next_x, *coeffs_k)\n", "        next_x = jax.tree_util.tree_map(lambda v: jnp.clip(v, -1e4, 1e4), next_x)\n        return next_x, (next_x, *coeffs_k)\n")],
    "a trajectory beyond 1e4", "the end state of an interval is clipped", DRV + '''
x = sde_solver(jax.random.PRNGKey(1), lambda x, t: x, lambda x, t: jnp.zeros((1, 1)), jnp.full(1, 2e4), lambda: get_approx(dim=1), .5, 3, lambda key, init, vector_field, T: init + T * vector_field(init, 0.))[1]
close(x[:, 0], 2e4 * 1.5 ** np.arange(4))
''')

bug("C02-key-high-word-ignored", "C02", [("sde_solvers/euler_maruyama.py", "    keys = jax.random.split(key, N)\n", "    keys = jax.random.split(jnp.asarray(key).at[0].set(0), N)\n")],
    "two keys which share their second word (such as seeds differing by a multiple of 2**32)", "different keys give the same noise", EMK + '''
go = lambda k: np.asarray(euler_maruyama(jnp.array(k, jnp.uint32), jnp.zeros(1), lambda x, t: x, lambda x, t: jnp.ones((1, 1)), .1, 5)[1])
assert not np.allclose(go([0, 7]), go([1, 7]))
''')

bug("C04-single-fine-piece", "C04", [("foster_polynomial.py", "        fine_dt = dt / N\n", "        fine_dt = dt / max(N, 2)\n")],
    "a single fine piece (N = 1)", "the coarse coefficients are not those of the only piece", '''
from bayesian_sde_solver.foster_polynomial import get_approx_fine
a, b, w, v = get_approx_fine(dim=1, N=1)[0](jax.random.PRNGKey(0), 1.)
vs = [np.asarray(get_approx_fine(dim=1, N=1)[0](jax.random.PRNGKey(k), 1.)[0])[0] for k in range(400)]
assert .8 < np.var(vs) < 1.25
''')

bug("C05-extra-noises-ignored", "C05", [("ito_stratonovich.py", '    return jnp.einsum("jk,ikj->i", diff_val, jac_val)\n', '    m = min(diff_val.shape[1], diff_val.shape[0] + 1)\n    return jnp.einsum("jk,ikj->i", diff_val[:, :m], jac_val[:, :m])\n')],
    "at least two more noises than states", "the correction ignores the last noises", '''
from bayesian_sde_solver.ito_stratonovich import to_stratonovich
f, s = to_stratonovich(lambda x, t: 0 * x, lambda x, t: jnp.array([[1., 2., 3.]]) * x[0])
close(f(jnp.ones(1), 0.), [-7.])
''')

bug("C07-many-noises-tied", "C07", [("sde_solvers/euler_maruyama.py", "        dW = h ** 0.5 * jax.random.normal(bm_key, shape=(dim,))\n", "        dW = h ** 0.5 * jnp.resize(jax.random.normal(bm_key, shape=(min(dim, 6),)), (dim,))\n")],
    "more than six noises", "the seventh noise equals the first", EMK + '''
x = np.asarray(euler_maruyama(jax.random.PRNGKey(0), jnp.zeros(8), lambda x, t: 0 * x, lambda x, t: jnp.eye(8), .1, 3)[1][-1])
assert abs(x[0] - x[6]) > 1e-6
''')

bug("C08-long-step-centred", "C08", [("sde_solvers/diag_15_scheme.py", "                @ (jnp.square(eta_k) - h * jnp.ones(dim))\n", "                @ (jnp.square(eta_k) - jnp.minimum(h, 0.5) * jnp.ones(dim))\n")],
    "a step above one half with a state-dependent diffusion", "the Milstein term is not centred", EMK + '''
m = float(np.mean(jax.vmap(lambda k: diag_15_scheme(k, jnp.ones(1), lambda x: 0 * x, lambda x: jnp.diag(x), 1., 1)[1][-1, 0])(jax.random.split(jax.random.PRNGKey(0), 40000))))
assert abs(m - 1) < .15, m
''')

bug("C09-jitter", "C09", [("sde_solvers/hypoelliptic_diffusion__diag_15_scheme.py", "                        GammaGammaT(x) * h,\n", "                        GammaGammaT(x) * h + 1e-6 * jnp.eye(dim - 1),\n")],
    "a small noise or a short step", "the conditional covariance of the rough coordinates is inflated", EMK + '''
go = lambda k: (hypoelliptic_diffusion_15_scheme(k, jnp.zeros(2), lambda x: jnp.array([x[1], 0.]), lambda x: jnp.array([[0., 0.], [0., 1e-3]]), 1e-2, 1)[1][-1])[1]
assert np.std(jax.vmap(go)(jax.random.split(jax.random.PRNGKey(0), 400))) < 2e-4
''')

bug("C10-single-precision-nodes", "C10", [("ode_solvers/euler.py", "    inps = jnp.linspace(0, N * h - h, N)\n", "    inps = jnp.linspace(0, N * h - h, N, dtype=jnp.float32).astype(jnp.result_type(float))\n")],
    "a time-dependent field in double precision", "the nodes are rounded to single precision", EKFS + '''
close(euler(jnp.zeros(1), lambda x, t: jnp.array([t]), .1, 10), [.45], 1e-12)
''')

bug("C11-small-factors-vanish", "C11", [("ode_solvers/probnum/ekf.py", "    return jnp.triu(r[:n, :n]).T\n", "    r = jnp.where(jnp.abs(r) > 1e-9, r, 0.0)\n    return jnp.triu(r[:n, :n]).T\n")],
    "covariances with factors below 1e-9 (tiny steps, high orders)", "small entries of the root are set to zero", EKFS + '''
P = ekf((jnp.zeros(1), 1e-10 * jnp.eye(1)), lambda x, y: x - y, jnp.eye(1), jnp.zeros((1, 1)), jnp.zeros(1), jnp.eye(1), (jnp.zeros((1, 1)),), lower_sqrt=True)[1]
close(np.abs(P) * 1e10, [[1.]])
''')

bug("C17-innovation-root-transposed", "C17", [("ode_solvers/probnum/ekf.py", "            S_or_cholS = S_or_cholS @ S_or_cholS.T\n", "            S_or_cholS = S_or_cholS.T @ S_or_cholS\n")],
    "dimension two or more in square-root form with all quantities returned", "the innovation covariance is L'L, not LL'", EKFS + '''
f = lambda x, t: jnp.array([[0., 1.], [-1., .5]]) @ jnp.tanh(x)
go = lambda s: ekf1_2(None, (jnp.ones(2), jnp.array([1., .3]), jnp.array([[.2, .1], [.1, .4]])), f, .3, 2, sqrt=s, return_all=True, noise=.1 * jnp.eye(2))[1][3]
close(go(True), go(False), 1e-7)
''')

bug("C18-exponential-series", "C18", [("ode_solvers/probnum/IOUP.py", "    A = linalg.expm(F * dt)\n", "    A = sum((jnp.linalg.matrix_power(F * dt, k) / factorial(k) for k in range(8)), jnp.zeros_like(F))\n")],
    "a strong mean reversion or a long step", "the transition matrix is a truncated series", EKFS + '''
A = IOUP_transition_function(4., 1., 1, 1., 1)[2]
close(A[1, 1], np.exp(-4.))
''')

bug("C19-matern-diagonal-noise", "C19", [("ode_solvers/probnum/matern.py", "        A = jnp.kron(jnp.eye(dim), A)\n        Q = jnp.kron(jnp.eye(dim), Q)\n        m = jnp.kron(jnp.ones(dim), m)\n", "        A = jnp.kron(jnp.eye(dim), A)\n        Q = jnp.kron(jnp.eye(dim), Q) if k < 3 else jnp.kron(jnp.eye(dim), jnp.diag(jnp.diag(Q)))\n        m = jnp.kron(jnp.ones(dim), m)\n")],
    "a Matern prior of smoothness 7/2 or more", "the process noise of the derivatives is uncorrelated", EKFS + '''
Q = matern_transition_function(3, 1., 1., .5, 1)[1]
assert abs(float(Q[0, 1])) > 1e-6, Q
''')

bug("C20-third-factor-order", "C20", [("ode_solvers/probnum/transition_function.py", "    A = jax.scipy.linalg.block_diag(*[t[2] for t in transitions])\n", "    A = jax.scipy.linalg.block_diag(*[t[2] for t in (transitions[:1] + transitions[:0:-1])])\n")],
    "three or more factors", "the transition matrices of the last factors are exchanged", EKFS + '''
ps = tuple(IOUP_transition_function(th, 1., 1, .5, 1) for th in (0., 1., 2.))
A = get_independently_factorized_prior(ps)[2]
for k in range(3):
    close(A[2 * k:2 * k + 2, 2 * k:2 * k + 2], ps[k][2])
''')

bug("C21-long-interval-covariance", "C21", [("ssm_parabola/ekf.py", "                          [0, Evfi[j, i], 0, delta / 2 if i == j else 0]])\n", "                          [0, Evfi[j, i], 0, jnp.minimum(delta, 1.0) / 2 if i == j else 0]])\n")],
    "an interval longer than one", "the prior variance of the area is capped", '''
from bayesian_sde_solver.ssm_parabola import ekf1_marginal_parabola
v = np.asarray(jax.vmap(lambda k: ekf1_marginal_parabola(k, jnp.zeros(1), 4., lambda x, t: 0 * x, lambda x, t: jnp.zeros((1, 1)), 4., 1)[2][0])(jax.random.split(jax.random.PRNGKey(0), 2000)))
assert 1.5 < v.var() < 2.6, v.var()
''')

bug("C21-diffusion-at-prior-state", "C21", [("ssm_parabola/ekf.py", "        return drift(x[::4], t) + diffusion(x[::4], t) @ H23 @ pol(t) @ x\n", "        return drift(x[::4], t) + diffusion(jax.lax.stop_gradient(x[::4]), t) @ H23 @ pol(t) @ x\n")],
    "EKF1 with a state-dependent diffusion and more than one step", "the linearisation ignores the dependence of the diffusion on the state", '''
from bayesian_sde_solver.ssm_parabola import ekf1_marginal_parabola
import bayesian_sde_solver.ssm_parabola.ekf as E
d, s = lambda x, t: -x, lambda x, t: jnp.diag(1 + x ** 2)
m, P = E._solver(jnp.ones(1), d, s, .4, .2, 2, sqrt=False)
# reference: the same filter written out
dl, h = .4, .2
S = 2.
m_ = np.array([1., -1., 0., 0.]); P_ = np.array([[0, 0, 0, 0], [0, 4 / dl * S * S, S, np.sqrt(6) / 2 * S], [0, S, dl, 0], [0, np.sqrt(6) / 2 * S, 0, dl / 2]])
A = np.eye(4); A[0, 1] = h; Q = np.zeros((4, 4)); Q[:2, :2] = [[h ** 3 / 3, h ** 2 / 2], [h ** 2 / 2, h]]
for t in (.2, .4):
    m_ = A @ m_; P_ = A @ P_ @ A.T + Q
    c = np.array([0, 0, 1 / dl, np.sqrt(6) * (1 - 2 * t / dl) / dl]); w = c @ m_
    r = m_[1] - (-m_[0] + (1 + m_[0] ** 2) * w)
    H = np.array([[1 - 2 * m_[0] * w, 1., 0, 0]]) - (1 + m_[0] ** 2) * c[None]
    K = P_ @ H.T / (H @ P_ @ H.T); m_ = m_ - K[:, 0] * r; P_ = P_ - K @ H @ P_
close(m, m_, 1e-6)
''')

bug("C22-first-interval-clock", "C22", [("ssm_parabola/ssm_parabola_ode.py", "        drift_shifted = lambda z, t: drift(z, t + t_k)\n", "        drift_shifted = lambda z, t: drift(z, jnp.mod(t + t_k, 100.0))\n")],
    "a non-autonomous drift and times beyond 100", "the clock of the drift wraps", '''
from bayesian_sde_solver.ssm_parabola import ssm_parabola_ode_solver
x = ssm_parabola_ode_solver(jax.random.PRNGKey(1), lambda x, t: jnp.array([t]), lambda x, t: jnp.zeros((1, 1)), jnp.zeros(1), 30., 5, lambda key, init, drift, diffusion, T: (drift(init, 0.), init, init))[1]
close(x[1:, 0], 30. * np.arange(5))
''')

bug("C23-single-iteration-bar-open", "C23", [("utils/progress_bar.py", "            iter_num == num_samples - 1,\n", "            iter_num == max(num_samples - 1, 1),\n")],
    "a run of a single iteration", "the bar of a run of one iteration is never closed", '''
import importlib
pb = importlib.import_module("bayesian_sde_solver.utils.progress_bar")
closed = []
class T:
    def __init__(self, *a, **k): pass
    def set_description(self, *a, **k): pass
    def update(self, n): pass
    def close(self): closed.append(1)
pb.tqdm = T
jax.block_until_ready(jax.lax.scan(pb.progress_bar(1)(lambda c, x: (c, c)), 0., jnp.arange(1)))
jax.effects_barrier()
from jax.experimental import host_callback
host_callback.barrier_wait()
assert closed == [1], closed
''')

bug("C24-random-drift-size", "C24", [("utils/ivp.py", "        return std1 @ drift_matrix @ x\n", "        return std1 @ (drift_matrix if dim < 8 else (drift_matrix + drift_matrix.T) / 2 ** 0.5) @ x\n")],
    "dimension eight or more", "the drift matrix is symmetric: its entries are not independent", '''
from bayesian_sde_solver.utils.ivp import random_linear_sde
M = np.asarray(random_linear_sde(jax.random.PRNGKey(3), 10)[1](jnp.eye(10), 0.))
assert np.max(np.abs(M - M.T)) > .1
''')

bug("C15-high-order-shared-normal", "C15", [("ode_solvers/ekf0.py", "        last_sample = m + sqrtP @ jax.random.multivariate_normal(key, jnp.zeros((n_states * dim,)),\n                                                                 jnp.eye(n_states * dim))\n", "        last_sample = m + sqrtP @ jnp.resize(jax.random.normal(key, (min(n_states * dim, 9),)), (n_states * dim,))\n")],
    "a state of more than nine entries (five dimensions, or three with a second order prior and beyond)", "normals are reused: the draw has another covariance", EKFS + '''
d = 8
pr = IOUP_transition_function(0., 1., 1, .5, d)
x = np.array(jax.vmap(lambda k: ekf0(k, jnp.zeros(d), lambda x, t: 0 * x, .5, 1, sqrt=False, prior=pr, noise=jnp.eye(d)))(jax.random.split(jax.random.PRNGKey(0), 4000)))
C = np.corrcoef(x.T)
assert np.max(np.abs(C - np.eye(d))) < .1
''')

bug("C16-large-covariance-capped", "C16", [("ode_solvers/ekf1_2.py", "    s_0, m_0, P_00 = sample[::2], m[::2], P[::2, ::2]\n", "    s_0, m_0, P_00 = sample[::2], m[::2], jnp.clip(P[::2, ::2], -1e2, 1e2)\n")],
    "a posterior covariance above 100", "large covariances are clipped before they are passed on", EKFS + '''
P = ekf1_2(None, (jnp.zeros(1), jnp.zeros(1), 500. * jnp.eye(1)), lambda x, t: 0 * x, .1, 1, noise=jnp.eye(1))[2]
assert float(P[0, 0]) > 400
''')

bug("C12-field-once-per-pair", "C12", [("ode_solvers/ekf.py", "    ts = jnp.linspace(h, N * h, N)\n", "    ts = jnp.linspace(h, N * h, N) if n_states == 2 else h * (jnp.arange(N) + 1 - (n_states > 3) * 0.5)\n")],
    "a prior of order three or more and a time-dependent field", "high order filters observe the field half a step early", EKFS + '''
k = IOUP_transition_function(0., 1., 3, .5, 1)
F = lambda x, t: jnp.sin(3 * x) + t
m = jnp.array([1., float(F(1., 0.)), float(jnp.cos(3.) * 3 * F(1., 0.) + 1), 0.]); P = jnp.diag(jnp.array([0., 0., 0., 1.]))
m, P = k[2] @ m, k[2] @ P @ k[2].T + k[1]
m = m - P[:, 1] / P[1, 1] * (m[1] - F(m[0], .5))
close(ekf0(None, jnp.ones(1), lambda x, t: F(x, t), .5, 1, sqrt=False, prior=k), m[:1])
''')

bug("C12-large-dimension-frozen", "C12", [("ode_solvers/ekf.py", "            return x[1::n_states] - vector_field(x[::n_states], t)\n", "            z = x[::n_states]\n            return x[1::n_states] - vector_field(z if dim < 6 else z.at[5:].set(jax.lax.stop_gradient(z[5:])), t)\n")],
    "EKF1 in dimension six or more with coupled coordinates", "the Jacobian misses the columns of the last coordinates", EKFS + '''
A = .7 * jnp.ones((7, 7))
a = ekf1(None, jnp.arange(7.) / 7, lambda x, t: A @ x, .3, 3, sqrt=False)
p = jnp.arange(7)[::-1]
b = ekf1(None, (jnp.arange(7.) / 7)[p], lambda x, t: A @ x, .3, 3, sqrt=False)
close(a[p], b, 1e-7)
''')
