"""C27: the experiment scripts save what they announce: solver and reference on the same Brownian path."""
import numpy as np

from vlib.scripts import FHN, FHN4, IBM, IBM4, Session, em_path, field, tol

RULE = ("a case executes one script of scripts/ unmodified, in a scratch directory, with the Monte-Carlo sample count cut to K keys and stopped after its first resolutions; the saved files are then judged against the package's driver on the "
        "same keys, an independent numpy Euler-Maruyama run over the fine increments, and each other; non-trivial: at least two Monte-Carlo paths that differ")
REQUIRE = {"scripts": 23, "files": 60, "paths": 150, "fine_steps": 100000, "resolutions": 40}
ASSUMPTIONS = ["jax.random.split with 1000 or more keys is cut to K keys, jax.disable_jit to a no-op and matplotlib to a recorder: they change how much is computed, not what",
               "a script is judged on its saved files; plots and notebooks are out of reach"]

S1, S2 = r"_pathwise_sols_(\d+)_(\d+)\.npy$", r"_pathwise_sols2_(\d+)_(\d+)\.npy$"
SCRIPTS = {
    "pathwise_convergence_experiment_2_RAM.py": ("ekf0", FHN), "EKF0_FHN/pathwise_convergence_experiment_2_RAM.py": ("ekf0", FHN), "EKF0_IBM/pathwise_convergence_experiment_2_RAM.py": ("ekf0", IBM),
    "EKF1_FHN/pathwise_convergence_experiment_2_RAM.py": ("ekf1", FHN), "EKF1_IBM/pathwise_convergence_experiment_2_RAM.py": ("ekf1", IBM), "EM_FHN/pathwise_convergence_experiment_2_RAM.py": ("em", FHN),
    "pathwise_convergence_experiment_2_RAM_2.py": ("ekf0_2", FHN), "EKF0_FHN/pathwise_convergence_experiment_2_RAM_2.py": ("ekf0_2", FHN), "EKF0_IBM/pathwise_convergence_experiment_2_RAM_2.py": ("ekf0_2", IBM),
    "EKF1_FHN/pathwise_convergence_experiment_2_RAM_2.py": ("ekf1_2", FHN), "EKF1_IBM/pathwise_convergence_experiment_2_RAM_2.py": ("ekf1_2", IBM),
    "pathwise_convergence_experiment_3_ssm.py": ("ssm0", FHN4), "EKF0_FHN/pathwise_convergence_experiment_3_ssm.py": ("ssm0", FHN4), "EKF0_IBM/pathwise_convergence_experiment_3_ssm.py": ("ssm0", IBM4),
    "EKF1_FHN/pathwise_convergence_experiment_3_ssm.py": ("ssm1", FHN4), "EKF1_IBM/pathwise_convergence_experiment_3_ssm.py": ("ssm1", IBM4),
    "pathwise_convergence_experiment_2.py": ("ekf0cov", IBM), "strong_convergence_parabola_ode.py": ("euler", FHN),
    "EKF0_Mat_vs_IBM_FHN/comparison_2_RAM.py": ("mat", FHN), "EKF0_Mat_vs_IBM_FHN/comparison_2_RAM_setup_in_the_response_to_the_reviewer.py": ("review", FHN),
}


def cases(tier, rng):
    out = []
    for s, (alg, prob) in SCRIPTS.items():
        for x64 in (True,) if tier == "quick" else (True, False):
            out.append(dict(kind="pairs", script=s, alg=alg, prob=prob, x64=x64, K=5 if tier == "quick" else 12, res=2 if tier == "quick" else 4, cost=2))
    # every resolution of every script, on few keys
    for s, (alg, prob) in SCRIPTS.items():
        out.append(dict(kind="pairs", script=s, alg=alg, prob=prob, x64=True, K=2, res=None, cost=4))
    out.append(dict(kind="pairs", script="EKF0_FHN/pathwise_convergence_experiment_2_RAM.py", alg="ekf0", prob=FHN, x64=False, K=4, res=2))
    out.append(dict(kind="pairs", script="EKF1_IBM/pathwise_convergence_experiment_3_ssm.py", alg="ssm1", prob=IBM4, x64=False, K=4, res=2))
    out.append(dict(kind="local", script="local_order_experiment_from_scratch.py", x64=True, K=16 if tier == "quick" else 200))
    out.append(dict(kind="lipschitz", script="experiment_exp_lipschitz.py", x64=True, K=4000 if tier == "quick" else 20000))
    out.append(dict(kind="linear", script="breaking_multidimensionnal.py", x64=True, K=2 if tier == "quick" else 4, cost=5))
    return out


def run(case, mon):
    mon.count("scripts")
    return globals()["do_" + case["kind"]](case, mon)


def package(alg, prob, keys, delta, N, M, fine, drive=True):
    """-> ({role: expected states (K, N+1, 2)}, fine increments (K, N*fine))"""
    import jax
    import jax.numpy as jnp
    from functools import partial
    from bayesian_sde_solver.foster_polynomial import get_approx_fine
    from bayesian_sde_solver.ito_stratonovich import to_stratonovich
    from bayesian_sde_solver.ode_solvers import ekf0, ekf0_2, ekf1, ekf1_2, euler
    from bayesian_sde_solver.ode_solvers.probnum import IOUP_transition_function, get_independently_factorized_prior, matern_transition_function, pad_prior
    from bayesian_sde_solver.sde_solver import sde_solver
    from bayesian_sde_solver.ssm_parabola import ekf0_marginal_parabola, ekf1_marginal_parabola, ssm_parabola_ode_solver
    from bayesian_sde_solver.utils import ivp
    x0, drift, sigma = getattr(ivp, prob)()[:3]
    drift, sigma = to_stratonovich(drift, sigma)
    keys = jnp.asarray(keys)
    if alg in ("ssm0", "ssm1"):
        flt = ekf0_marginal_parabola if alg == "ssm0" else ekf1_marginal_parabola
        sol = lambda key, init, drift, diffusion, T: flt(key, init, delta=T, drift=drift, diffusion=diffusion, h=T / M, N=M, sqrt=True)
        return dict(sols=jax.vmap(lambda k: ssm_parabola_ode_solver(key=k, drift=drift, sigma=sigma, x0=x0, delta=delta, N=N, solver=sol)[1])(keys)), None
    h = delta / M
    iou = lambda q, theta=0., dim=2: IOUP_transition_function(theta=theta, sigma=1.0, dt=h, q=q, dim=dim)
    two = alg.endswith("_2")
    if alg == "em":
        ints = {}
    elif alg == "euler":
        ints = dict(sols=lambda key, init, vector_field, T: euler(init=init, vector_field=vector_field, h=T / M, N=M))
    elif alg == "mat":
        go = lambda prior: (lambda key, init, vector_field, T: ekf0(key, init=init, vector_field=vector_field, h=T / M, N=M, prior=prior, noise=None, sqrt=True))
        ints = dict(ioup=go(iou(2)), mat=go(matern_transition_function(k=2, magnitude=1.0, length=1.0, dt=h, dim=2)))
    elif alg == "review":
        go = lambda prior: (lambda key, init, vector_field, T: ekf0(key, init=init, vector_field=vector_field, h=T / M, N=M, prior=prior, noise=None, sqrt=False))
        m2 = matern_transition_function(k=2, magnitude=1.0, length=jnp.sqrt(5) / 3, dt=h, dim=1)
        m1 = matern_transition_function(k=1, magnitude=1.0, length=jnp.sqrt(3) / 2, dt=h, dim=1, mc=True)
        ints = dict(ioup=go(get_independently_factorized_prior((iou(2, 1., 1), pad_prior(iou(1, 1., 1), q=2)))), mat=go(get_independently_factorized_prior((m2, pad_prior(m1, q=2)))))
    else:
        cov = alg == "ekf0cov"
        solver = dict(ekf0=ekf0, ekf1=ekf1, ekf0_2=ekf0_2, ekf1_2=ekf1_2, ekf0cov=ekf0)[alg]
        ints = dict(sols=partial(lambda key, init, vector_field, T: solver(key, init=init, vector_field=vector_field, h=T / M, N=M, prior=iou(1), noise=None, sqrt=not cov)))
    init = (x0, x0, jnp.zeros((2, 2))) if two else x0
    out = {}
    bm = lambda: get_approx_fine(N=fine, dim=1)
    ints = ints if drive else {}
    for role, ode_int in (ints or dict(none=lambda key, init, vector_field, T: init)).items():
        traj, co = jax.jit(jax.vmap(lambda k: (lambda r: (r[1], r[4]))(sde_solver(key=k, drift=drift, sigma=sigma, x0=init, bm=bm, delta=delta, N=N, ode_int=ode_int))))(keys)
        out[role] = traj[0] if two else traj
    incs = np.asarray(co, float).reshape(len(keys), N * fine)
    out.pop("none", None)
    if alg == "em" and drive:
        out["sols"] = em_path(prob, incs.reshape(len(keys), N, fine).sum(-1), delta)
    return {k: np.asarray(v) for k, v in out.items()}, incs


def do_pairs(case, mon):
    s = Session(case["script"], case["K"], case["res"]).run()
    alg, prob, T = case["alg"], case["prob"], 10.0 if case["script"].startswith("strong") else 1.0
    key = case["script"]
    mon.true("files-on-disk", not s.lost, lost=s.lost, key=key)
    mon.count("files", len(s.files))
    if alg in ("mat", "review"):
        roles = dict(ref=r"_pathwise_sols_(\d+)_(\d+)\.npy$", ioup=r"_IOUP_2_pathwise_sols2_(\d+)_(\d+)\.npy$", mat=r"_Matern_2_pathwise_sols2_(\d+)_(\d+)\.npy$")
    elif alg == "euler":
        roles = dict(sols=r"pathwise_sols_EM_(\d+)_(\d+)\.npy$", ref=r"pathwise_sols2_E_(\d+)_(\d+)\.npy$")
    elif alg in ("ssm0", "ssm1"):
        roles = dict(sols=S1)
    else:
        roles = dict(sols=S1, ref=S2)
    if alg == "ekf0cov":
        roles["paths"] = r"_paths_(\d+)_(\d+)\.npy$"
    got = {r: {int(m.group(1)): (int(m.group(2)), arr, at) for m, arr, at in s.all(p)} for r, p in roles.items()}
    Ns = sorted(got["sols" if "sols" in got else "ref"])
    if not mon.true("every-role-saved", len(Ns) > 0 and all(sorted(g) == Ns for g in got.values()), key=key, saved={r: sorted(g) for r, g in got.items()}):
        return
    errs = []
    for N in Ns:
        mon.count("resolutions")
        delta = T / N
        main = got["sols" if "sols" in got else "ref"][N]
        K = main[1].shape[0]
        for r, g in got.items():
            want = (K, N * g[N][0], 1) if r == "paths" else (K, N + 1, 2)
            if not mon.true("one-trajectory-per-key", g[N][1].shape == want, key=key, role=r, N=N, got_shape=list(g[N][1].shape), want_shape=list(want)):
                return
        keys = s.keys(K, main[2])
        if not mon.true("monte-carlo-keys", keys is not None and len(np.unique(keys, axis=0)) == K and K > 1, key=key, N=N):
            return
        M = (got["sols"] if "sols" in got else got["ioup"])[N][0]
        fine = got["ref"][N][0] if "ref" in got else 2
        if case["res"] is None and N in Ns[1:-1] and "ref" not in got:
            continue  # the end points are replayed; in between, the shapes and keys are
        exp, incs = package(alg, prob, keys, np.float64(delta) if case["x64"] else np.float32(delta), N, M, fine, case["res"] is not None or N not in Ns[1:-1])
        for r, e in exp.items():
            mon.close("solver-trajectory", got[r][N][1], e, scale="max", key=key, role=r, N=N, M=M, **tol(case))
            mon.close("starts-at-x0", got[r][N][1][:, 0], np.broadcast_to(field(prob)[2], (K, 2)), key=key, rtol=1e-6, role=r, N=N)
            mon.true("paths-differ", len(np.unique(np.round(np.asarray(got[r][N][1][:, -1], float), 10), axis=0)) == K, key=key, role=r, N=N)
        mon.count("paths", K)
        mon.ev(key, N, K, np.asarray(main[1])[:, -1], n=K)
        if "ref" in got:
            ref = em_path(prob, incs, delta / fine)[:, ::fine]
            mon.close("reference-is-fine-euler-maruyama", got["ref"][N][1], ref, scale="max", key=key, N=N, fine=fine, **tol(case))
            mon.count("fine_steps", incs.size)
            if "paths" in got:
                mon.close("saved-increments", got["paths"][N][1][..., 0], incs, key=key, N=N, **tol(case))
            for r in exp:
                e = np.asarray(got[r][N][1], float) - np.asarray(got["ref"][N][1], float)
                sd = np.asarray(got["ref"][N][1], float)
                errs.append((N, r, float(np.median(np.sqrt(np.mean(e ** 2, axis=(1, 2))))), float(np.sqrt(np.mean((sd - sd[:, :1]) ** 2)))))
    for N, r, e, sp in errs:
        if prob == IBM or T == 1.0:
            mon.bound("solver-near-reference", e, (6.0 if alg != "em" and case["K"] > 4 else 12.0) * sp * T / N, key=key, role=r, N=N, errs=errs)
    mon.sample(dict(script=case["script"], resolutions=Ns, K=case["K"], rms_errors=[(N, r, round(e, 5)) for N, r, e, _ in errs]))



def do_local(case, mon):
    s = Session(case["script"], case["K"]).run()
    import jax
    import jax.numpy as jnp
    from bayesian_sde_solver.foster_polynomial import get_approx_fine
    from bayesian_sde_solver.ode_solvers import ekf0
    key = case["script"]
    files = s.all(r"experiment_([0-9.]+?)\.npy$")
    mon.true("files-on-disk", not s.lost and len(files) == 4, lost=s.lost, key=key)
    get, ev = get_approx_fine(dim=1, N=1000)
    errs = []
    for m, arr, at in files:
        delta = float(m.group(1))
        K = case["K"]
        keys = s.keys(K, at)
        if not mon.true("saved-shapes", keys is not None and arr.shape == (2, K, 1), key=key, got=list(arr.shape)):
            return
        coeffs = jax.vmap(lambda k: get(jax.random.split(k, 1)[0], delta))(jnp.asarray(keys))
        w = np.asarray(coeffs[2], float).reshape(K, 1000)
        x, h = np.ones(K), delta / 1000
        for k in range(1000):
            x = x + h * np.exp(x) + w[:, k]
        step = jax.vmap(lambda *c: ekf0(None, init=jnp.ones(1), vector_field=lambda z, t: jnp.exp(z) + jax.jacfwd(lambda u: ev(u, delta, *c))(t), h=delta, N=1))(*coeffs)
        mon.close("one-step-solution", arr[0], np.asarray(step), key=key, delta=delta, rtol=1e-8)
        mon.close("one-step-reference", arr[1][:, 0], x, key=key, delta=delta, rtol=1e-8)
        errs.append((delta, float(np.sqrt(np.mean((arr[0] - arr[1]) ** 2)))))
        mon.count("files")
        mon.count("paths", K)
        mon.count("fine_steps", 1000 * K)
        mon.count("resolutions")
        mon.ev(key, delta, arr, n=K)
    errs.sort()
    mon.bound("local-error-shrinks", errs[0][1] / errs[-1][1], .2, key=key, errs=errs)


def do_lipschitz(case, mon):
    s = Session(case["script"], case["K"]).run()
    import jax
    import jax.numpy as jnp
    from bayesian_sde_solver.foster_polynomial import get_approx
    key = case["script"]
    curves = {k.get("label"): a for n, a, k in s.plots if n == "semilogy"}
    if not curves:
        mon.true("script-completes", True)
        mon.ev(key, 0)
        return
    keys = s.keys(case["K"], len(s.splits))
    if not mon.true("curves", set(curves) == {"theoretical bound", "experiment"} and keys is not None, key=key, got=sorted(map(str, curves))):
        return
    ds, exp = [np.asarray(v, float).ravel() for v in curves["experiment"]]
    db, bound = [np.asarray(v, float).ravel() for v in curves["theoretical bound"]]
    mon.close("same-abscissae", ds, db, key=key)
    want = []
    for dt in ds:
        a, b = [np.asarray(v, float)[:, 0] for v in jax.vmap(lambda k: get_approx()[0](k, dt))(jnp.asarray(keys))]
        u = np.linspace(0, 1, 101)
        v = np.abs(a[:, None] + np.sqrt(6) * b[:, None] * (1 - 2 * u))
        want.append(np.mean(np.exp((v[:, 1:] + v[:, :-1]).sum(1) / 200)))
    mon.close("expected-lipschitz-constant", exp, want, key=key, rtol=1e-7)
    mon.true("below-the-bound", bool(np.all(exp <= bound + 5 * np.sqrt(ds / case["K"]))), key=key, exp=exp, bound=bound)
    mon.count("paths", 10)
    mon.ev(key, exp)


def do_linear(case, mon):
    s = Session(case["script"], case["K"]).run()
    import jax
    import jax.numpy as jnp
    from vlib import refs
    from bayesian_sde_solver.foster_polynomial import get_approx_fine
    from bayesian_sde_solver.ode_solvers import ekf0
    from bayesian_sde_solver.ode_solvers.probnum import IOUP_transition_function
    from bayesian_sde_solver.sde_solver import sde_solver
    from bayesian_sde_solver.utils import ivp
    key, K = case["script"], case["K"]
    f1, f2 = s.all(r"_pathwise_sols_(\d+)_(\d+)_(\d+)\.npy$"), s.all(r"_pathwise_sols2_(\d+)_(\d+)_(\d+)\.npy$")
    mon.true("files-on-disk", not s.lost, lost=s.lost, key=key)
    if not mon.true("every-role-saved", len(f1) == 1 and len(f2) == 1, key=key, got=[f[0] for f in s.files]):
        return
    N, M, dim = [int(v) for v in f1[0][0].groups()]
    fine = int(f2[0][0].group(2))
    s1, s2 = f1[0][1], f2[0][1]
    keys = s.keys(K, f1[0][2])
    if not mon.true("saved-shapes", keys is not None and s1.shape == s2.shape == (K, N + 1, dim), key=key, got=[list(s1.shape), list(s2.shape)]):
        return
    delta = 1.0 / N
    x0, drift, sigma = ivp.random_linear_sde(key=jax.random.PRNGKey(1337), dim=dim)
    A, B = np.asarray(drift(jnp.eye(dim), 0.)), np.asarray(sigma(jnp.ones(dim), 0.))
    prior = IOUP_transition_function(theta=0., sigma=1.0, dt=delta / M, q=1, dim=dim)
    go = lambda k: sde_solver(key=k, drift=drift, sigma=sigma, x0=x0, bm=lambda: get_approx_fine(N=fine, dim=dim), delta=delta, N=N,
                              ode_int=lambda key, init, vector_field, T: ekf0(key, init=init, vector_field=vector_field, h=T / M, N=M, prior=prior, noise=None, sqrt=True))
    out = jax.jit(jax.vmap(lambda k: (lambda r: (r[1], r[4]))(go(k))))(jnp.asarray(keys))
    w = np.asarray(out[1], float).reshape(K, N, fine, dim)
    mon.close("solver-trajectory", s1, np.asarray(out[0]), scale="max", key=key, rtol=1e-8)
    E = np.asarray(refs.expm(A * delta), float)
    Ef = np.asarray(refs.expm(A * delta / fine), float)
    x, want = np.ones((K, dim)), [np.ones((K, dim))]
    for k in range(N):
        acc = np.zeros((K, dim))
        for j in range(fine):
            acc = (acc + w[:, k, j] @ B.T) @ Ef.T  # e^{A (delta - s_j)} B dW_j with s_j the left end of the fine cell
        x = x @ E.T + acc
        want.append(x)
    want = np.stack(want, 1)
    mon.close("reference-is-the-linear-solution", s2, want, scale="max", key=key, rtol=1e-7)
    mon.count("files", 2)
    mon.count("paths", K)
    mon.count("fine_steps", K * N * fine)
    mon.count("resolutions")
    mon.ev(key, s1[:, -1], n=K)
