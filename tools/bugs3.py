BUGS = []


def bug(id, prop, edits, needs, breaks, demo, **kw):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))


# runs a script of /repo/scripts in a scratch directory with the Monte-Carlo count cut; -> {file name: array}
RUN = '''
import os, runpy, tempfile, shutil, contextlib


def script(name, K=3, stop=None):
    split, save, dis = jax.random.split, jnp.save, jax.disable_jit
    files, cwd, scratch, big = {}, os.getcwd(), tempfile.mkdtemp(), [0]

    class Stop(Exception):
        pass

    def split_(key, num=2):
        if isinstance(num, int) and num >= 1000 and not isinstance(key, jax.core.Tracer):
            big[0] += 1
            if stop and big[0] > stop:
                raise Stop()
            num = K
        return split(key, num)

    def save_(file, arr):
        files[os.path.basename(str(file))] = np.asarray(arr, float)
    jax.random.split, jnp.save, jax.disable_jit = split_, save_, lambda *a, **k: contextlib.nullcontext()
    try:
        os.chdir(scratch)
        runpy.run_path(os.path.join(cwd, "scripts", name), run_name="__main__")
    except Stop:
        pass
    finally:
        os.chdir(cwd)
        shutil.rmtree(scratch)
        jax.random.split, jnp.save, jax.disable_jit = split, save, dis
    return files


def incs(key, N, fine):
    """fine increments of the driver's path"""
    from bayesian_sde_solver.foster_polynomial import get_approx_fine
    return np.concatenate([np.asarray(get_approx_fine(dim=1, N=fine)[0](jax.random.split(k, 2)[0], 1.0 / N)[2]) for k in jax.random.split(key, N)])


def euler(f, x, w, h):
    out = [x]
    for a in w:
        x = x + h * f(x) + a[0] * np.array([0., 1.] if IBM else [0., .3])
        out.append(x)
    return np.array(out)


IBM = True
ibm = lambda x: np.array([x[1], 0.])
fhn = lambda x: np.array([(x[0] - x[0] ** 3 - x[1]) / .1, 1.5 * x[0] - x[1] + .8])
K0 = jax.random.PRNGKey(1337)
'''
S = "../scripts/"

bug("C27-reference-restarts", "C27", [(S + "EKF1_IBM/pathwise_convergence_experiment_2_RAM.py", "            _, euler_path = euler_maruyama_pathwise(incs, init=x2,", "            _, euler_path = euler_maruyama_pathwise(incs, init=x1,")],
    "comparing the saved reference with the fine Euler-Maruyama path of the same increments", "the reference scheme restarts from the solver's state at every interval", RUN + '''
f = script("EKF1_IBM/pathwise_convergence_experiment_2_RAM.py", stop=1)
close(f["EKF1_IBM_pathwise_sols2_16_16"][0], euler(ibm, np.ones(2), incs(jax.random.split(K0, 3)[0], 16, 16), 1 / 256)[::16])
''')
bug("C27-reference-other-path", "C27", [(S + "EKF0_FHN/pathwise_convergence_experiment_2_RAM.py", "            incs = coeffs_k[2]\n", "            incs = get_coeffs(sample_key, delta)[2]\n")],
    "comparing solver and reference path by path", "solver and reference are driven by independent Brownian motions", RUN + '''
IBM = False
f = script("EKF0_FHN/pathwise_convergence_experiment_2_RAM.py", stop=1)
close(f["EKF0_FHN_pathwise_sols2_16_16"][0], euler(fhn, np.zeros(2), incs(jax.random.split(K0, 3)[0], 16, 16), 1 / 256)[::16])
''')
bug("C27-prior-step-of-interval", "C27", [(S + "EKF0_IBM/pathwise_convergence_experiment_2_RAM.py", "Mdeltas = jnp.ones((len(deltas),)) * (Ns) ** 0.\n", "Mdeltas = jnp.ones((len(deltas),)) * jnp.maximum(1, Ns // 512)\n"), (S + "EKF0_IBM/pathwise_convergence_experiment_2_RAM.py", "dt=delta / M, q=1", "dt=delta, q=1")],
    "resolutions of 1024 intervals (below, an interval is one step)", "the prior's transition covers the whole interval instead of one sub-step", RUN + '''
f = script("EKF0_IBM/pathwise_convergence_experiment_2_RAM.py", K=2)
from bayesian_sde_solver.utils.ivp import ibm as prob
from bayesian_sde_solver.sde_solver import sde_solver
from bayesian_sde_solver.foster_polynomial import get_approx_fine
from bayesian_sde_solver.ode_solvers import ekf0
from bayesian_sde_solver.ode_solvers.probnum import IOUP_transition_function
x0, drift, sigma, _ = prob()
for n, a in f.items():
    if "sols2" in n:
        continue
    N, M = map(int, n.split("_")[-2:])
    if N < 512:
        continue
    pr = IOUP_transition_function(theta=0., sigma=1., dt=1 / N / M, q=1, dim=2)
    w = sde_solver(jax.random.split(K0, 2)[0], drift, sigma, x0, lambda: get_approx_fine(N=N, dim=1), 1 / N, N, lambda key, init, vector_field, T: ekf0(key, init, vector_field, T / M, M, prior=pr, sqrt=True))[1]
    close(a[0], w, 1e-7)
''')
bug("C27-coarse-fine-grid-capped", "C27", [(S + "EKF1_FHN/pathwise_convergence_experiment_2_RAM.py", "            dt = delta / fine\n", "            dt = delta / min(fine, 128)\n")],
    "resolutions with more than 128 fine steps per interval", "the reference integrates the drift over a longer step than its increments span", RUN + '''
IBM = False
f = script("EKF1_FHN/pathwise_convergence_experiment_2_RAM.py", K=2, stop=5)
for n, a in f.items():
    if "sols2" in n:
        N, fine = map(int, n.split("_")[-2:])
        close(a[0], euler(fhn, np.zeros(2), incs(jax.random.split(K0, 2)[0], N, fine), 1 / N / fine)[::fine], 1e-7)
''')
bug("C27-mixture-start", "C27", [(S + "EKF1_FHN/pathwise_convergence_experiment_2_RAM_2.py", "    P0 = jnp.zeros((x0.shape[0], x0.shape[0]))\n", "    P0 = jnp.eye(x0.shape[0]) * 1e-3\n")],
    "the mixture filter's initial covariance", "the mixture filter does not start from an exactly known state", RUN + '''
from bayesian_sde_solver.utils.ivp import fhn as prob
from bayesian_sde_solver.sde_solver import sde_solver
from bayesian_sde_solver.foster_polynomial import get_approx_fine
from bayesian_sde_solver.ode_solvers import ekf1_2
from bayesian_sde_solver.ode_solvers.probnum import IOUP_transition_function
f = script("EKF1_FHN/pathwise_convergence_experiment_2_RAM_2.py")
x0, drift, sigma = prob()[:3]
pr = IOUP_transition_function(theta=0., sigma=1., dt=1 / 128, q=1, dim=2)
w = jax.jit(lambda k: sde_solver(k, drift, sigma, (x0, x0, jnp.zeros((2, 2))), lambda: get_approx_fine(N=128, dim=1), 1 / 128, 128, lambda key, init, vector_field, T: ekf1_2(key, init, vector_field, T, 1, prior=pr, sqrt=True))[1][0])
k = jax.random.split(K0, 10)
close(f["EKF1_2_FHN_pathwise_sols_128_1"][:2], np.stack([w(k[0]), w(k[1])]), 1e-6)
''')
bug("C27-ssm-interval-length", "C27", [(S + "EKF0_IBM/pathwise_convergence_experiment_3_ssm.py", "delta=T, drift=drift, diffusion=diffusion, h=T / M", "delta=jnp.minimum(T, 1 / 8), drift=drift, diffusion=diffusion, h=T / M")],
    "intervals longer than 1/8 (the coarse resolutions)", "the marginalised filter is told another interval length than it integrates over", RUN + '''
from bayesian_sde_solver.utils.ivp import square_matrix_ibm as prob
from bayesian_sde_solver.ssm_parabola import ekf0_marginal_parabola, ssm_parabola_ode_solver
f = script("EKF0_IBM/pathwise_convergence_experiment_3_ssm.py", stop=2)
x0, drift, sigma, _ = prob()
for N in (2, 4):
    w = ssm_parabola_ode_solver(jax.random.split(K0, 3)[0], drift, sigma, x0, 1 / N, N, lambda key, init, drift, diffusion, T: ekf0_marginal_parabola(key, init, delta=T, drift=drift, diffusion=diffusion, h=T, N=1, sqrt=True))[1]
    close(f["EKF0_SSM_IBM_pathwise_sols_%d_1" % N][0], w)
''')
bug("C27-matern-and-ioup-swapped", "C27", [(S + "EKF0_Mat_vs_IBM_FHN/comparison_2_RAM_setup_in_the_response_to_the_reviewer.py", "    return sols, sols_ioup, sols_mat\n", "    return sols, sols_mat, sols_ioup\n")],
    "comparing the two saved prior families", "the trajectories of the two priors are saved under each other's name", RUN + '''
from bayesian_sde_solver.utils.ivp import fhn as prob
from bayesian_sde_solver.sde_solver import sde_solver
from bayesian_sde_solver.foster_polynomial import get_approx_fine
from bayesian_sde_solver.ode_solvers import ekf0
from bayesian_sde_solver.ode_solvers.probnum import IOUP_transition_function, get_independently_factorized_prior, pad_prior
f = script("EKF0_Mat_vs_IBM_FHN/comparison_2_RAM_setup_in_the_response_to_the_reviewer.py", stop=1)
x0, drift, sigma = prob()[:3]
g = lambda q: IOUP_transition_function(theta=1., sigma=1., dt=1 / 16, q=q, dim=1)
pr = get_independently_factorized_prior((g(2), pad_prior(g(1), q=2)))
w = sde_solver(jax.random.split(K0, 3)[0], drift, sigma, x0, lambda: get_approx_fine(N=16, dim=1), 1 / 16, 16, lambda key, init, vector_field, T: ekf0(None, init, vector_field, T, 1, prior=pr))[1]
a, b = [v for n, v in f.items() if "IOUP" in n][0][0], [v for n, v in f.items() if "Matern" in n][0][0]
assert np.max(np.abs(a - w)) < np.max(np.abs(b - w)), (np.max(np.abs(a - w)), np.max(np.abs(b - w)))
''')
bug("C27-local-order-key", "C27", [(S + "local_order_experiment_from_scratch.py", "        func = lambda t: eval_parabola(t, delta, *coeffs)\n", "        func = lambda t: eval_parabola(t, delta, coeffs[0], -coeffs[1], *coeffs[2:])\n")],
    "the one-step error against the same path", "the one-step experiment integrates the mirrored parabola", RUN + '''
from bayesian_sde_solver.foster_polynomial import get_approx_fine
from bayesian_sde_solver.ode_solvers import ekf0
f = script("local_order_experiment_from_scratch.py", K=2)
get, ev = get_approx_fine(dim=1, N=1000)
c = get(jax.random.split(jax.random.split(K0, 2)[1], 1)[0], .1)
close(f["experiment_0.1"][0][1], ekf0(None, jnp.ones(1), lambda z, t: jnp.exp(z) + jax.jacfwd(lambda u: ev(u, .1, *c))(t), .1, 1))
''')

U, P = S + "sampling_from_posterior_alg3/uncertainty_calibration.py", S + "sampling_from_posterior_alg3/pathwise_sampling_from_posterior.py"
bug("C28-other-path-saved", "C28", [(U, "    sols2 = sols2[0]  # fine solution\n", "    sols2 = sols2[-1]  # fine solution\n")],
    "comparing the saved reference with the first saved increments", "the fine solution belongs to another path than the posterior", RUN + '''
IBM = False
f = script("sampling_from_posterior_alg3/uncertainty_calibration.py")
p = "EKF1_2_FHN_calibrated_"
close(f[p + "pathwise_sols2_50_50"], euler(fhn, np.zeros(2), f[p + "fine_incs_50_50"][0], 1 / 2500), 1e-6)
''')
bug("C28-parabola-euler-coarse", "C28", [(U, "sigma=lambda _, __: jnp.zeros_like(sigma(x0, 0.)), h=T / fine, N=fine)", "sigma=lambda _, __: jnp.zeros_like(sigma(x0, 0.)), h=T / (fine // 2), N=fine // 2)")],
    "comparing with Euler along the parabola ODE at the announced resolution", "the saved parabola reference has half the announced resolution", RUN + '''
f = script("sampling_from_posterior_alg3/uncertainty_calibration.py")
p = "EKF1_2_FHN_uncalibrated_"
w, b = f[p + "incs_50_50"][0, :, 0], f[p + "parabola_coeffs_50_50"][0, :, 0]
x, out = np.zeros(2), [np.zeros(2)]
for k in range(50):
    for j in range(50):
        x = x + (fhn(x) + np.array([0., .3]) * (w[k] + np.sqrt(6) * b[k] * (1 - 2 * j / 50)) * 50) / 2500
    out.append(x)
close(f[p + "pathwise_sols4_parabola_ode_50_50"], out, 1e-6)
''')
bug("C28-samples-share-noise", "C28", [(P, "        return mean + jlinalg.cholesky(var, lower=True) @ jax.random.normal(key_sample, shape=mean.shape)\n", "        return mean + jlinalg.cholesky(var, lower=True) @ jnp.tile(jax.random.normal(key_sample, shape=(dim,)), n)\n")],
    "the joint law of one sampled path at several times", "the posterior samples repeat one normal vector at every time", RUN + '''
f = script("sampling_from_posterior_alg3/pathwise_sampling_from_posterior.py")
g = lambda s: [v for n, v in f.items() if s in n][0]
z = np.linalg.solve(np.linalg.cholesky(g("var_pn"))[None], (g("sampled_sols") - g("mean_pn"))[..., None])[..., 0]
assert np.max(np.abs(z[:, 0] - z[:, 1])) > .1
''')
bug("C28-samples-mean-shifted", "C28", [(P, "    mean_gaussian_pn = mean_gaussian_pn[1:] # get rid of the initializations t=0\n", "    mean_gaussian_pn = mean_gaussian_pn[:-1]\n")],
    "comparing the saved posterior means with the filter's, time by time", "the saved means lag the saved covariances by one interval", RUN + '''
f = script("sampling_from_posterior_alg3/pathwise_sampling_from_posterior.py")
m = [v for n, v in f.items() if "mean_pn" in n][0]
assert np.max(np.abs(m[0])) > 1e-6, m[0]
''')
