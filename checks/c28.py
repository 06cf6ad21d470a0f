"""C28: the posterior-sampling and calibration experiments save one consistent Brownian path, its reference solutions and the posterior they announce."""
import re

import numpy as np

from vlib.scripts import FHN, Session, em_path, field, tol

RULE = ("a case executes one script of scripts/sampling_from_posterior_alg3 unmodified in a scratch directory; every saved file is recomputed from the saved increments (numpy Euler-Maruyama, numpy Euler along the parabola ODE) or from the package's "
        "filter on the same key, the posterior samples are whitened with the saved covariance, and the calibrated run is compared with the diffusion its own residuals estimate; non-trivial: every saved run")
REQUIRE = {"scripts": 5, "files": 50, "paths": 10, "fine_steps": 10000, "samples": 200, "calibrations": 2}
ASSUMPTIONS = ["jax.disable_jit is a no-op", "a script is judged on its saved files; plots and notebooks are out of reach"]


def cases(tier, rng):
    out = []
    for x64 in (True, False):
        out.append(dict(kind="posterior", script="sampling_from_posterior_alg3/pathwise_sampling_from_posterior.py", x64=x64, cost=3))
        out.append(dict(kind="calibration", script="sampling_from_posterior_alg3/uncertainty_calibration.py", x64=x64, cost=3))
    out.append(dict(kind="sanity", script="sampling_from_posterior_alg3/sanity_check_calibration_ode.py", x64=True))
    return out


def run(case, mon):
    mon.count("scripts")
    return globals()["do_" + case["kind"]](case, mon)


def consistent(case, mon, s, prefix, N, fine, keys, key):
    """the files of one run describe one Brownian path and the three reference schemes along it -> (incs, b) of the first path"""
    get = {n: s.all(re.escape(prefix) + r"_%s_%d_%d\.npy$" % (n, N, fine)) for n in ("fine_incs", "incs", "parabola_coeffs", "pathwise_sols2", "pathwise_sols3", "pathwise_sols4_parabola_ode")}
    if not mon.true("every-role-saved", all(len(v) == 1 for v in get.values()), key=key, got=[f[0] for f in s.files]):
        return None
    get = {n: np.asarray(v[0][1], float) for n, v in get.items()}
    K = len(keys)
    shapes = dict(fine_incs=(K, N * fine, 1), incs=(K, N, 1), parabola_coeffs=(K, N, 1), pathwise_sols2=(N * fine + 1, 2), pathwise_sols3=(N + 1, 2), pathwise_sols4_parabola_ode=(N + 1, 2))
    if not mon.true("saved-shapes", all(get[n].shape == shapes[n] for n in shapes), key=key, got={n: list(a.shape) for n, a in get.items()}):
        return None
    t = tol(case)
    delta, dt = 1.0 / N, 1.0 / (N * fine)
    mon.close("increments-sum", get["incs"][..., 0], get["fine_incs"].reshape(K, N, fine).sum(-1), key=key, **t)
    import jax
    import jax.numpy as jnp
    from bayesian_sde_solver.foster_polynomial import get_approx_fine
    from bayesian_sde_solver.sde_solver import sde_solver
    ty = np.float64 if case["x64"] else np.float32
    _, _, a, b, w, _ = jax.vmap(lambda k: sde_solver(key=k, drift=lambda x, t: x, sigma=lambda x, t: x[:, None], x0=jnp.zeros(1), bm=lambda: get_approx_fine(N=fine, dim=1), delta=ty(delta), N=N,
                                                     ode_int=lambda key, init, vector_field, T: init))(jnp.asarray(keys))
    mon.close("saved-increments", get["fine_incs"], np.asarray(w).reshape(K, N * fine, 1), key=key, **t)
    mon.close("saved-coefficients", get["parabola_coeffs"], np.asarray(b), key=key, **t)
    f, sg, x0 = field(FHN)
    mon.close("fine-reference", get["pathwise_sols2"], em_path(FHN, get["fine_incs"][:1, :, 0], dt)[0], scale="max", key=key, **t)
    mon.close("coarse-reference", get["pathwise_sols3"], em_path(FHN, get["incs"][:1, :, 0], delta)[0], scale="max", key=key, **t)
    x, want = x0, [x0]
    for k in range(N):
        for j in range(fine):
            x = x + dt * (f(x) + sg * (get["incs"][0, k, 0] + np.sqrt(6) * get["parabola_coeffs"][0, k, 0] * (1 - 2 * j / fine)) / delta)
        want.append(x)
    mon.close("parabola-ode-reference", get["pathwise_sols4_parabola_ode"], np.array(want), scale="max", key=key, **t)
    mon.count("files", len(shapes))
    mon.count("paths", K)
    mon.count("fine_steps", N * fine)
    mon.count("resolutions")
    mon.ev(key, prefix, get["fine_incs"], n=K)
    return get["incs"][0, :, 0], get["parabola_coeffs"][0, :, 0]


def filtered(case, key, N, M, sigma2):
    """the Gaussian-mixture filter of the package along one key -> full means, covariances, innovations' covariances and residuals, per interval"""
    import jax
    import jax.numpy as jnp
    from bayesian_sde_solver.foster_polynomial import get_approx_fine
    from bayesian_sde_solver.ode_solvers import ekf1_2
    from bayesian_sde_solver.ode_solvers.probnum import IOUP_transition_function
    from bayesian_sde_solver.sde_solver import sde_solver
    from bayesian_sde_solver.utils import ivp
    x0, drift, sigma = ivp.fhn()[:3]
    ty = np.float64 if case["x64"] else np.float32
    delta = ty(1.0 / N)
    prior = IOUP_transition_function(theta=0., sigma=jnp.sqrt(ty(sigma2)), dt=delta / M, q=1, dim=2)

    def ode_int(key, init, vector_field, T):
        return ekf1_2(key, init=init[:3], vector_field=vector_field, h=T / M, N=M, prior=prior, noise=None, sqrt=True, return_all=True)
    z = jnp.zeros
    flat = lambda key, init, vector_field, T: (lambda r: r[0] + tuple(r[1][1:]))(ode_int(key, init, vector_field, T))
    start = (x0, x0, z((2, 2)), z(4), z((4, 4)), z((2, 2)), z(2))
    traj = sde_solver(key=jnp.asarray(key), drift=drift, sigma=sigma, x0=start, bm=lambda: get_approx_fine(N=N, dim=1), delta=delta, N=N, ode_int=flat)[1]
    return [np.asarray(v, float)[1:] for v in traj]


def do_posterior(case, mon):
    s = Session(case["script"]).run()
    key, N, fine = case["script"], 9, 9
    mon.true("files-on-disk", not s.lost and len(s.files) == 9, lost=s.lost, key=key)
    one = lambda n: [np.asarray(a, float) for m, a, at in s.all(r"%s_%d_1\.npy$" % (n, N))]
    keys = next((r for k, num, r in s.splits if num == 2), None)
    if not mon.true("every-role-saved", keys is not None and all(len(one(n)) == 1 for n in ("_sampled_sols", "_mean_pn", "_var_pn")), key=key, got=[f[0] for f in s.files]):
        return
    if consistent(case, mon, s, "_FHN", N, fine, keys, key) is None:
        return
    X, m, P = one("_sampled_sols")[0], one("_mean_pn")[0], one("_var_pn")[0]
    if not mon.true("saved-shapes", X.shape == (100, N, 2) and m.shape == (N, 2) and P.shape == (N, 2, 2), key=key, got=[list(a.shape) for a in (X, m, P)]):
        return
    want = filtered(case, keys[0], N, 1, 1.0)
    t = tol(case)
    mon.close("posterior-mean", m, want[1], scale="max", key=key, **t)
    mon.close("posterior-covariance", P, want[2], scale=np.max(np.abs(want[2]), axis=(1, 2))[:, None, None], key=key, rtol=t["rtol"], atol=1e-12 if case["x64"] else 1e-6)
    mon.finite("samples-finite", X, key=key)
    z = np.linalg.solve(np.linalg.cholesky(P)[None], (X - m[None])[..., None])[..., 0].reshape(100, -1)
    n = z.size
    mon.bound("samples-centred", abs(z.mean()) * np.sqrt(n), 6, key=key)
    mon.bound("samples-scale", abs((z ** 2).mean() - 1) * np.sqrt(n / 2), 6.5, key=key)
    mon.bound("samples-centred-per-coordinate", np.abs(z.mean(0)) * 10, 6, key=key)
    mon.bound("samples-scale-per-coordinate", np.abs((z ** 2).mean(0) - 1) * np.sqrt(50), 7, key=key)
    C = z.T @ z / 100
    mon.bound("samples-independent", np.abs(C - np.diag(np.diag(C))) * 10, 7, key=key)
    mon.true("samples-distinct", len(np.unique(np.round(z[:, 0], 9))) == 100, key=key)
    mon.count("files", 3)
    mon.count("samples", 100)


def do_calibration(case, mon):
    s = Session(case["script"]).run()
    key, N, fine = case["script"], 50, 50
    mon.true("files-on-disk", not s.lost and len(s.files) == 16, lost=s.lost, key=key)
    keys = next((r for k, num, r in s.splits if num == 2), None)
    got = {}
    for p in ("_FHN_uncalibrated", "_FHN_calibrated"):
        f = {n: [np.asarray(a, float) for m, a, at in s.all(re.escape(p) + r"_%s_%d_1\.npy$" % (n, N))] for n in ("mean_pn", "var_pn")}
        if not mon.true("every-role-saved", keys is not None and all(len(v) == 1 for v in f.values()), key=key, got=[x[0] for x in s.files]):
            return
        if consistent(case, mon, s, p, N, fine, keys, key + p) is None:
            return
        got[p] = f["mean_pn"][0], f["var_pn"][0]
    t = dict(rtol=1e-7, atol=1e-10) if case["x64"] else dict(rtol=2e-2, atol=1e-2)
    unc = filtered(case, keys[0], N, 1, 10.0)
    S, r = unc[5], unc[6]
    mle = float(np.mean([ri @ np.linalg.solve(Si, ri) for ri, Si in zip(r, S)]) / 2)
    cal = filtered(case, keys[0], N, 1, 10.0 * mle)
    for p, want in (("_FHN_uncalibrated", unc), ("_FHN_calibrated", cal)):
        mon.close("full-posterior-mean", got[p][0], want[3], scale="max", key=key + p, mle=mle, **t)
        mon.close("full-posterior-covariance", got[p][1], want[4], scale=np.max(np.abs(want[4]), axis=(1, 2))[:, None, None], key=key + p, mle=mle, rtol=t["rtol"], atol=t["atol"] * 1e-2)
    # quasi-maximum likelihood: the calibrated run leaves nothing to calibrate
    mon.close("calibrated-prior-is-its-own-mle", np.mean([ri @ np.linalg.solve(Si, ri) for ri, Si in zip(cal[6], cal[5])]) / 2, 1.0, key=key, **t)
    mon.close("calibration-rescales-the-covariance", np.trace(got["_FHN_calibrated"][1], axis1=1, axis2=2), mle * np.trace(got["_FHN_uncalibrated"][1], axis1=1, axis2=2), key=key, mle=mle, rtol=t["rtol"], atol=0)
    mon.count("files", 4)
    mon.count("calibrations")
    mon.sample(dict(script=key, mle=mle))


def do_sanity(case, mon):
    s = Session(case["script"]).run()
    g = s.globals
    # the problem is deterministic: the saved-in-memory references are logistic growth by Euler
    x, want = np.array([.1]), [[.1]]
    x = x + .5 * x * (1 - x)
    want.append(x)
    for n in ("s_fine", "s_em", "s_parabola_ode"):
        if n in g:
            mon.close("logistic-reference", g[n], want, key=case["script"], rtol=1e-9)
    mon.true("script-completes", True)
    mon.ev(case["script"], np.asarray(g.get("s_em", 0.)))
