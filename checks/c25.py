"""C25: purity of every public entry point under transforms, batching, repetition and call order."""
import random

import numpy as np

from vlib import fields as F
from vlib import priors

RULE = ("a case is a session over a set of public entry points, each with several inputs: every call is made eagerly (arrays and plain numpy inputs), compiled, batched, with compilation disabled, repeated and interleaved in random order, "
        "with a fingerprint of all inputs and of the process-wide state taken around every call; non-trivial: at least two distinct inputs whose results differ")
REQUIRE = {"calls": 500, "repeats": 150, "fingerprints": 5000, "batched": 150, "uncompiled": 40, "ops": 45, "distinct_results": 40, "leak_checked": 8, "near_calls": 100, "slopes": 25, "processes": 6, "steps_as_argument": 40}
ASSUMPTIONS = ["square-root-form draws at rank-deficient covariances are fixed in law only, so their values are compared between identical calls, not across transforms"]

OPS = ["euler", "em", "em_path", "em_path_std", "diag15", "hypo15", "bm_parabola", "bm_brownian", "bm_fine", "strat", "ito",
       "ekf0", "ekf1", "ekf0s", "ekf1s", "ekf0_2", "ekf1_2", "ekf0_2s", "ekf1_2s", "ssm0", "ssm1", "ssm0s", "ssm1s",
       "drv_euler", "drv_ekf0", "drv_ekf1s", "drv_ekf1_2", "drv_ekf0_2s", "drv_fine", "drv_brownian", "sdrv0", "sdrv1s",
       "insert", "prior_ioup", "prior_matern", "prior_generic", "mle", "kernel", "kernel_s"]
NO_STEP = {"strat", "ito", "insert", "mle", "kernel", "kernel_s"}  # take no step


def cases(tier, rng):
    out = []
    per = 4
    for r in range(2 if tier == "quick" else 12):
        out.append(dict(kind="near", calls=90 if tier == "quick" else 180, cost=3))
    for r in range(1 if tier == "quick" else 6):
        names = [OPS[i] for i in rng.permutation(len(OPS))]
        for g in range(2):
            out.append(dict(kind="process", ops=names[g * 7:g * 7 + 7] if tier == "quick" else names[g::2], n=3 if tier == "quick" else 5, x64=True, d=int(rng.integers(1, 4)), N=int(rng.integers(1, 5)), noise="full", prior=["default", "ibm-scaled"][g], cost=3))
    for r in range(1 if tier == "quick" else 12):
        for x in (True, False):
            ops = [OPS[i] for i in rng.permutation(len(OPS))]
            # expensive ones spread
            groups = [ops[i::13] for i in range(13)]
            for g in groups if x or tier != "quick" else groups[:4]:
                out.append(dict(ops=g, x64=x, d=int(rng.integers(1, 4)), N=int(rng.integers(1, 5)), noise=["full", "none"][int(rng.integers(2))] if x else "full",
                                prior=["default", "ibm-scaled", "matern", "drifted"][int(rng.integers(4))], cost=3, deep=tier != "quick"))
    return out


def near(case, mon):
    """results depend on the arguments of the call alone: calls whose steps, orders or dimensions almost coincide, in random order, against explicit priors"""
    import jax
    import jax.numpy as jnp
    from bayesian_sde_solver.ode_solvers import ekf0, ekf0_2, ekf1, ekf1_2
    from bayesian_sde_solver.ode_solvers.probnum import IOUP_transition_function, matern_transition_function, transition_function
    from vlib import refs
    rng = np.random.default_rng(case["seed"])
    h0 = float(np.exp(rng.uniform(np.log(1e-3), np.log(.5))))
    hs = [h0 * (1 + e) for e in (0., 1e-7, -3e-6, 1e-5, 4e-4, -2e-3, 2e-2, .3, 0.)]
    todo = [(s, h, d, q) for s in ("ekf0", "ekf1", "ekf0_2", "ekf1_2", "ioup", "matern", "generic") for h in hs for d, q in ((1, 1), (2, 1), (2, 2))]
    S = dict(ekf0=ekf0, ekf1=ekf1, ekf0_2=ekf0_2, ekf1_2=ekf1_2)
    N, P = 3, {d: F.draw_drift(rng, d, "gen", .8) for d in (1, 2)}
    progs = {}
    for j in rng.permutation(len(todo))[:case["calls"]]:
        s, h, d, q = todo[j]
        x = rng.normal(size=d)
        mon.count("near_calls")
        if s in S:
            if q != 1:
                continue
            two = s.endswith("_2")
            st = (jnp.asarray(x), jnp.asarray(x), jnp.zeros((d, d))) if two else jnp.asarray(x)
            f = lambda y, t: F.drift(jnp, P[d], y, t)
            got = leaves(S[s](None, st, f, h, N))
            # the same field and prior, compiled apart with the prior as an argument
            if (s, d) not in progs:
                progs[s, d] = jax.jit(lambda st, pr, h: S[s](None, st, lambda y, t: F.drift(jnp, P[d], y, t), h, N, prior=pr))
            want = leaves(progs[s, d](st, tuple(map(jnp.asarray, refs.ibm(1, h, d))), h))
            tol = 1e-10
        elif s == "ioup":
            got, want, tol = IOUP_transition_function(0.0, 1.0, q, h, d), refs.ibm(q, h, d), 1e-12
        elif s == "matern":
            got, want, tol = matern_transition_function(q, 1.3, .8, h, d)[1:2], None, 1e-9
            got, want = [np.asarray(got[0])], [np.asarray(jax.jit(lambda h: matern_transition_function(q, 1.3, .8, h, d)[1])(h))]
        else:
            A = np.array([[0., 1.], [-1., -.5]])
            got, want, tol = transition_function(A, np.ones(2), np.array([[0.], [1.]]), h, n_linspace=400)[2:3], [np.asarray(refs.expm(A * h), float)], 1e-9
        for g, w in zip(got, want):
            mon.close("depends-on-arguments-only", g, w, rtol=tol, atol=tol, scale="max", key=s, h=h, dim=d, q=q)
        mon.ev(s, h, d, q)


def digest(case, first):
    """in a process of its own: import `first` before anything else of the package, then every op once -> {op: values}"""
    import importlib
    import logging
    import os
    import sys
    import jax
    import jax.experimental.host_callback, jax.scipy.linalg, jax.scipy.integrate, tqdm.auto  # noqa: E401,F401 (their own settings are theirs)
    np.random.seed(3)

    def settings():
        return dict(config={k: repr(v) for k, v in jax.config.values.items()}, err=np.geterr(), printing=repr(np.get_printoptions()), random=repr(random.getstate()), numpy_random=repr(np.random.get_state()),
                    environ=dict(os.environ), logging=(logging.root.level, len(logging.root.handlers)), limit=sys.getrecursionlimit(), cwd=os.getcwd(), hook=repr(sys.excepthook))
    before = settings()
    for name in [first, *case["modules"]]:
        importlib.import_module(name)
    after = settings()
    out = {"import-leaves-settings": [k for k in before if before[k] != after[k]]}
    jax.config.update("jax_enable_x64", True)
    for k in np.random.default_rng(abs(hash(first)) % 2 ** 31).permutation(len(case["ops"])):
        op = case["ops"][k]
        ins, go, shapes, comparable, h = make(op, case, np.random.default_rng(case["seed"] + [int(k)]), np.float64)
        out[op] = [np.asarray(v, float).tolist() for v in leaves(jax.jit(go)(jax.tree_util.tree_map(jax.numpy.asarray, ins[0])))]
    return out


def process(case, mon):
    """the results do not depend on the process: hash seed, working directory, which module is imported first, order of the calls"""
    import json
    import os
    import subprocess
    import sys
    import tempfile
    from vlib import core
    rng = np.random.default_rng(case["seed"])
    root = os.path.join(core.REPO, "bayesian_sde_solver")
    mods = sorted(os.path.relpath(os.path.join(d, f), core.REPO)[:-3].replace(os.sep, ".").replace(".__init__", "") for d, _, fs in os.walk(root) for f in fs if f.endswith(".py") and "__pycache__" not in d)
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    case = dict(case, modules=mods)
    outs = []
    for first in [mods[i] for i in rng.permutation(len(mods))[:case["n"]]]:
        with tempfile.TemporaryDirectory() as tmp:
            code = "import sys, json; sys.path.insert(0, %r); sys.dont_write_bytecode = True; from vlib import core; core.install_repo_loader(); from checks import c25; r = c25.digest(json.loads(sys.argv[1]), sys.argv[2]); print('RESULT' + json.dumps(r))" % here
            p = subprocess.run([sys.executable, "-B", "-W", "ignore", "-c", code, json.dumps(case), first], cwd=tmp, capture_output=True, text=True,
                               env=dict(os.environ, PYTHONHASHSEED=str(int(rng.integers(1, 10 ** 6))), TZ=["UTC", "Asia/Tokyo"][int(rng.integers(2))]))
        line = [l for l in p.stdout.splitlines() if l.startswith("RESULT")]
        mon.count("processes")
        if not mon.true("fresh-process", p.returncode == 0 and bool(line), key=first, rc=p.returncode, err=p.stderr[-600:]):
            return
        outs.append(json.loads(line[0][6:]))
        changed = outs[-1].pop("import-leaves-settings")
        mon.true("import-leaves-settings", not changed, key=",".join(changed), first=first)
    for o in outs[1:]:
        for op in case["ops"]:
            for u, v in zip(o[op], outs[0][op]):
                mon.close("same-in-every-process", u, v, rtol=1e-6, atol=1e-8, scale="max", key=op)
                mon.count("calls")
    mon.ev("process", *case["ops"], n=len(outs))


def session_state():
    import jax
    s = np.random.get_state()
    return (s[0], s[1].tobytes(), s[2:], random.getstate(), tuple(sorted(np.geterr().items())),
            bool(jax.config.jax_enable_x64), str(jax.config.jax_default_matmul_precision), bool(jax.config.jax_debug_nans), bool(jax.config.jax_disable_jit), str(jax.config.jax_numpy_rank_promotion))


def leaves(tree):
    import jax
    return jax.tree_util.tree_leaves(tree)


def fingerprint(tree):
    return [(np.asarray(a).shape, str(np.asarray(a).dtype), np.asarray(a).tobytes()) for a in leaves(tree)]


def make(name, case, rng, ty):
    """-> (list of K input dicts of numpy arrays, go(inputs) -> pytree, expected shapes, values comparable across transforms)"""
    import jax
    import jax.numpy as jnp
    from bayesian_sde_solver import foster_polynomial as fp
    from bayesian_sde_solver.ito_stratonovich import to_ito, to_stratonovich
    from bayesian_sde_solver.ode_solvers import ekf0, ekf0_2, ekf1, ekf1_2, euler
    from bayesian_sde_solver.ode_solvers.probnum import IOUP_transition_function, ekf, matern_transition_function, transition_function
    from bayesian_sde_solver.ode_solvers.probnum.calibration import mle_diffusion
    from bayesian_sde_solver.sde_solver import sde_solver
    from bayesian_sde_solver.sde_solvers import diag_15_scheme, euler_maruyama, euler_maruyama_pathwise, hypoelliptic_diffusion_15_scheme
    from bayesian_sde_solver.ssm_parabola import ekf0_marginal_parabola, ekf1_marginal_parabola, ssm_parabola_ode_solver
    from bayesian_sde_solver.utils.insert import insert
    d, N = case["d"], case["N"]
    K = 3
    m = d
    h = float([.1, .03, .25][int(rng.integers(3))])
    if name in ("hypo15",):
        d = m = max(2, d)
    if name.startswith(("em", "strat", "ito", "drv_euler", "drv_fine")):
        m = int(rng.integers(1, 4))
    skind = {"diag15": "diagown", "hypo15": "hypo"}.get(name, "gen")
    fk = "autonomous" if name in ("diag15", "hypo15") else "gen"

    def inp(**kw):
        out = dict(P=F.draw_drift(rng, d, fk, .7), S=F.draw_diffusion(rng, d, m, skind, .7), x=rng.normal(size=d), key=np.asarray(jax.random.PRNGKey(int(rng.integers(2 ** 31)))), **{k: v() for k, v in kw.items()})
        if skind == "diagown":
            out["S"]["v"] *= 0
        if skind == "hypo":
            out["S"]["v"] *= 0
            out["S"]["S1"] *= .1
            out["S"]["S0"][1:] = np.eye(d)[1:] + .1 * out["S"]["S0"][1:]
            out["P"]["A"][0] = 1.0 + np.abs(out["P"]["A"][0])
            out["P"]["B"][0] *= 0
        return jax.tree_util.tree_map(lambda a: np.ascontiguousarray(a, ty) if np.asarray(a).dtype.kind == "f" else np.ascontiguousarray(a), out)
    fields = lambda i: ((lambda x, t: F.drift(jnp, i["P"], x, t)), (lambda x, t: F.sigma(jnp, i["S"], x, t)))
    aut = lambda i: ((lambda x: F.drift(jnp, i["P"], x, 0.)), (lambda x: F.sigma(jnp, i["S"], x, 0.)))
    key = lambda i: jnp.asarray(i["key"])
    comparable = True
    if name == "euler":
        ins, go, shapes = [inp() for _ in range(K)], lambda i: euler(i["x"], fields(i)[0], h, N), [(d,)]
    elif name == "em":
        ins, go, shapes = [inp() for _ in range(K)], lambda i: euler_maruyama(i["key"], i["x"], *fields(i), h, N), [(N + 1,), (N + 1, d)]
    elif name in ("em_path", "em_path_std"):
        ins = [inp(incs=lambda: rng.normal(size=(N, m))) for _ in range(K)]
        go, shapes = lambda i: euler_maruyama_pathwise(i["incs"], i["x"], *fields(i), h, N, standard=name.endswith("std")), [(N + 1,), (N + 1, d)]
    elif name == "diag15":
        ins, go, shapes = [inp() for _ in range(K)], lambda i: diag_15_scheme(i["key"], i["x"], *aut(i), h, N), [(N + 1,), (N + 1, d)]
    elif name == "hypo15":
        ins, go, shapes = [inp() for _ in range(K)], lambda i: hypoelliptic_diffusion_15_scheme(i["key"], i["x"], *aut(i), h, N), [(N + 1,), (N + 1, d)]
    elif name.startswith("bm_"):
        M = int(rng.integers(2, 7))
        gen = {"bm_parabola": lambda: fp.get_approx(dim=m), "bm_brownian": lambda: fp.get_approx_and_brownian(dim=m, N=M), "bm_fine": lambda: fp.get_approx_fine(dim=m, N=M)}[name]
        extra = {"bm_parabola": [], "bm_brownian": [(M, m)], "bm_fine": [(M, m)] * 2}[name]

        def go(i):
            draw, ev = gen()
            c = draw(i["key"], h)
            return c, ev(.3 * h, h, *c[:2], *[jnp.zeros(m)] * len(extra))
        ins, shapes = [inp() for _ in range(K)], [(m,), (m,)] + extra + [(m,)]
    elif name in ("strat", "ito"):
        conv = to_stratonovich if name == "strat" else to_ito

        def go(i):
            f, s = conv(*fields(i))
            return f(i["x"], .3), s(i["x"], .3)
        ins, shapes = [inp() for _ in range(K)], [(d,), (d, m)]
    elif name.startswith(("ekf", "ssm", "drv_ekf", "sdrv")):
        base = name.replace("drv_", "").replace("sdrv", "ssm")
        root = base.endswith("s")
        base = base[:-1] if root else base
        two, ssm = base.endswith("_2"), base.startswith("ssm")
        solver = {"ekf0": ekf0, "ekf1": ekf1, "ekf0_2": ekf0_2, "ekf1_2": ekf1_2, "ssm0": ekf0_marginal_parabola, "ssm1": ekf1_marginal_parabola}[base]
        n_sub = 2 if "drv" in name else N
        noise = priors.draw_noise(rng, case["noise"] if ty == np.float64 else "full", d)
        kind = case["prior"]
        step = h / n_sub if "drv" in name else h
        pr = None
        if kind != "default":
            kind = "ibm-scaled" if kind == "padded" else kind
            pr = priors.draw(rng, kind, 1, step, 1 if ssm else d)
        sq = root or ty == np.float32
        # values are compared across transforms where the draw itself is determined; a mean always is
        keyed = not sq
        extra = {}
        if pr is not None:
            extra["prior"] = lambda: tuple(np.array(a) for a in pr)
        if noise is not None:
            extra["noise"] = lambda: np.array(noise)
        extra["P0"] = lambda: (lambda L: L @ L.T)(.2 * rng.normal(size=(d, d)))
        ins = [inp(**extra) for _ in range(K)]
        opts = lambda i: dict(sqrt=sq, **{k: i[k] for k in ("prior", "noise") if k in i})
        if name.startswith("drv"):
            start = lambda i: (i["x"], i["x"] * 0.5, i["P0"]) if two else i["x"]
            integ = lambda i: (lambda key, init, vector_field, T: solver(key if keyed else None, init, vector_field, T / n_sub, n_sub, **opts(i)))
            go = lambda i: sde_solver(i["key"], *fields(i), start(i), lambda: fp.get_approx(dim=m), h, N, integ(i))
            shapes = [(N + 1,)] + ([(N + 1, d), (N + 1, d), (N + 1, d, d)] if two else [(N + 1, d)]) + [(N, m), (N, m)]
        elif name.startswith("sdrv"):
            integ = lambda i: (lambda key, init, drift, diffusion, T: solver(key if keyed else None, init, T, drift, diffusion, T / n_sub, n_sub, **opts(i)))
            go = lambda i: ssm_parabola_ode_solver(i["key"], *fields(i), i["x"], h, N, integ(i))
            shapes = [(N + 1,), (N + 1, d)]
        elif ssm:
            go = lambda i: (solver(None, i["x"], N * h, *fields(i), h, N, **opts(i)), solver(i["key"], i["x"], N * h, *fields(i), h, N, **opts(i)) if keyed else ())
            shapes = [(d,)] * 3 * (2 if keyed else 1)
        elif two:
            start = lambda i: (i["x"] + 1, i["x"], i["P0"])
            go = lambda i: (solver(None, start(i), fields(i)[0], h, N, **opts(i)), solver(i["key"], start(i), fields(i)[0], h, N, **opts(i)) if keyed else ())
            shapes = [(d,), (d,), (d, d)] * (2 if keyed else 1)
        else:
            go = lambda i: (solver(None, i["x"], fields(i)[0], h, N, **opts(i)), solver(i["key"], i["x"], fields(i)[0], h, N, **opts(i)) if keyed else ())
            shapes = [(d,)] * (2 if keyed else 1)
        comparable = True
    elif name.startswith("drv_"):
        M = 5
        gen = {"drv_euler": lambda: fp.get_approx(dim=m), "drv_fine": lambda: fp.get_approx_fine(dim=m, N=M), "drv_brownian": lambda: fp.get_approx_and_brownian(dim=m, N=M)}[name]
        extra = {"drv_euler": [], "drv_fine": [(N, M, m)] * 2, "drv_brownian": [(N, M, m)]}[name]
        go = lambda i: sde_solver(i["key"], *fields(i), i["x"], gen, h, N, lambda key, init, vector_field, T: euler(init, vector_field, T / 3, 3))
        ins, shapes = [inp() for _ in range(K)], [(N + 1,), (N + 1, d), (N, m), (N, m)] + extra
    elif name == "insert":
        ins = [inp(a=lambda: rng.normal(size=(N, d)), b=lambda: rng.normal(size=(N, d, d))) for _ in range(K)]
        go = lambda i: (insert(i["a"], 0, i["x"], axis=0), insert((i["a"], i["b"]), 0, (i["x"], i["b"][0] * 2), axis=0))
        shapes = [(N + 1, d), (N + 1, d), (N + 1, d, d)]
    elif name == "prior_ioup":
        ins = [inp(th=lambda: np.exp(rng.normal()), sg=lambda: np.exp(rng.normal())) for _ in range(K)]
        go, shapes = lambda i: IOUP_transition_function(0.0, i["sg"], 1, h, d), [(2 * d,), (2 * d, 2 * d), (2 * d, 2 * d)]
    elif name == "prior_matern":
        k = int(rng.integers(1, 3))
        ins = [inp() for _ in range(K)]
        mag, ell = float(np.exp(rng.normal() * .3)), float(np.exp(rng.normal() * .3))
        n = (k + 1) * d
        go, shapes = lambda i: jax.tree_util.tree_map(lambda a: a * i["x"][0], matern_transition_function(k, mag, ell, h, d)), [(n,), (n, n), (n, n)]
    elif name == "prior_generic":
        ins = [inp(u=lambda: rng.normal(size=d), L=lambda: rng.normal(size=(d, 1))) for _ in range(K)]
        go, shapes = lambda i: transition_function(i["P"]["A"], i["u"], i["L"], h, n_linspace=50), [(d,), (d, d), (d, d)]
    elif name == "mle":
        ins = [inp(zs=lambda: rng.normal(size=(N, d)), Ss=lambda: (lambda L: L @ np.swapaxes(L, 1, 2) + np.eye(d))(rng.normal(size=(N, d, d)))) for _ in range(K)]
        go, shapes = lambda i: mle_diffusion(i["zs"], i["Ss"]), [()]
    elif name.startswith("kernel"):
        sq = name.endswith("_s")
        spd = lambda: (lambda L: np.linalg.cholesky(L @ L.T + .2 * np.eye(d)) if sq else L @ L.T + .2 * np.eye(d))(rng.normal(size=(d, d)))
        ins = [inp(Q=spd, R=spd, P0=spd, A=lambda: .5 * rng.normal(size=(d, d)), xi=lambda: rng.normal(size=d), ys=lambda: rng.normal(size=(N, d))) for _ in range(K)]

        def go(i):
            m_, P_ = ekf(init=(i["x"], i["P0"]), observation_function=lambda x, y: x + .3 * jnp.sin(x) - y, A=i["A"], Q_or_cholQ=i["Q"], xi=i["xi"], R_or_cholR=i["R"], params=(i["ys"],), lower_sqrt=sq)
            return m_, (P_ @ P_.T if sq else P_)
        shapes = [(d,), (d, d)]
    else:
        raise ValueError(name)

    def at(v, i):
        """the same call with another step"""
        nonlocal h
        old, h = h, v
        try:
            return go(i)
        finally:
            h = old
    go.at = at
    return ins, go, shapes, comparable, h


def run(case, mon):
    if case.get("kind") == "near":
        return near(case, mon)
    if case.get("kind") == "process":
        return process(case, mon)
    import jax
    import jax.numpy as jnp
    rng = np.random.default_rng(case["seed"])
    ty = np.float64 if case["x64"] else np.float32
    r, a = (1e-6, 1e-8) if case["x64"] else (3e-2, 3e-3)
    ops, deep = [], case["deep"]
    J = lambda tree: jax.tree_util.tree_map(jnp.asarray, tree)
    np_ = lambda tree: [np.asarray(v) for v in leaves(tree)]
    base_state = session_state()

    def observed(op, how, f, *args):
        """one call with the inputs and the process state fingerprinted around it"""
        before, st = fingerprint(args), session_state()
        out = np_(f(*args))
        mon.count("calls")
        mon.count("fingerprints", len(before))
        mon.true("inputs-untouched", fingerprint(args) == before, key=op, how=how)
        mon.true("process-state-untouched", session_state() == st, key=op, how=how)
        return out

    def same(name, got, want, op):
        mon.true(name + ":structure", len(got) == len(want), key=op)
        for g, w in zip(got, want):
            sc = max(1e-3, float(np.max(np.abs(w.astype(float))))) if w.size else 1.0
            mon.close(name, g, w, rtol=r, atol=a * sc, scale=sc, key=op)

    for op in case["ops"]:
        ins, go, shapes, comparable, h = make(op, case, rng, ty)
        jins = [J(i) for i in ins]
        prog = jax.jit(go)
        ref = [observed(op, "compiled", prog, i) for i in jins]
        for out in ref:
            got = [v.shape for v in out]
            mon.true("shapes", got == [tuple(s) for s in shapes], got=[list(s) for s in got], want=[list(s) for s in shapes], key=op)
            mon.true("dtype", all(v.dtype == ty for v in out if v.dtype.kind == "f") and all(v.dtype.kind == "f" for v in out), got=[str(v.dtype) for v in out], want=str(ty), key=op)
            mon.finite("finite", *out, key=op)
        fresh = any(not np.array_equal(u, v) for u, v in zip(ref[0], ref[1]))
        mon.count("distinct_results", fresh)
        eager = [observed(op, "eager", go, jins[0])]
        if comparable:
            same("eager-equals-compiled", eager[0], ref[0], op)
        plain = observed(op, "numpy", go, ins[0])
        same("numpy-equals-arrays", plain, eager[0], op)
        mon.true("numpy-dtype", all(u.dtype == v.dtype for u, v in zip(plain, eager[0])), key=op)
        stack = jax.tree_util.tree_map(lambda *v: jnp.stack(v), *jins)
        bat = observed(op, "batched", jax.jit(jax.vmap(go)), stack)
        for k in range(len(ins)):
            same("batched-equals-single", [v[k] for v in bat], ref[k], op)
            mon.count("batched")
        # batch over keys and initial states only, everything else closed over
        part = lambda key, x: go(dict(jins[0], key=key, x=x))
        pb = observed(op, "batched-key-state", jax.vmap(part), stack["key"], stack["x"])
        same("batched-equals-single", [v[0] for v in pb], ref[0], op)
        solo = np_(prog(dict(jins[0], key=jins[1]["key"], x=jins[1]["x"])))
        same("batched-equals-single", [v[1] for v in pb], solo, op)
        mon.count("batched", 2)
        # the enabled precision is used all the way through: a change of the inputs far below single precision moves the result by its derivative
        # (draws excepted: a draw from a nearly singular covariance moves by the square root of the rounding)
        gauss = op.replace("drv_", "").startswith(("ekf", "ssm", "sdrv"))
        drawn = gauss and not op.endswith("s")
        upto_ = upto = (0 if "drv" in op else len(ref[0]) // 2) if drawn else len(ref[0])
        if case["x64"] and upto:
            tree, shape = jax.tree_util.tree_flatten(jins[0])
            cs = rng.uniform(.5, 1.5, size=len(tree))
            moved = lambda e: np_(prog(jax.tree_util.tree_unflatten(shape, [v * (1 + e * c) if v.dtype.kind == "f" else v for v, c in zip(tree, cs)])))
            up, dn, tiny = moved(1e-4), moved(-1e-4), moved(1e-9)
            for u, w, t, b in list(zip(up, dn, tiny, ref[0]))[:upto]:
                slope = (u - w) / 2e-4
                sc = float(np.max(np.abs(b))) if b.size else 0.
                if b.size and float(np.max(np.abs(slope))) > .05 * sc:
                    mon.close("enabled-precision-throughout", (t - b) / 1e-9, slope, rtol=.2, atol=1e-3 * sc, scale="max", key=op)
                    mon.count("slopes")
        # the step may be an argument of the compiled program, or one of a batch
        if op not in NO_STEP:
            hs = jnp.asarray([h, h / 3, 1.4 * h], ty)
            want = [np_(jax.jit(lambda i: go.at(float(v), i))(jins[1])) for v in hs[1:]] if deep else [ref[1]]
            hs = hs[1:] if deep else hs[:1]
            step = observed(op, "compiled-step", jax.jit(lambda v, i: go.at(v, i)), hs[0], jins[1])
            same("step-as-argument", step[:upto_], want[0][:upto_], op)
            many = observed(op, "batched-step", jax.jit(jax.vmap(lambda v, i: go.at(v, i), in_axes=(0, None))), hs, jins[1])
            for k, w in enumerate(want):
                same("step-as-argument", [v[k] for v in many][:upto_], w[:upto_], op)
            mon.count("steps_as_argument", 1 + len(want))
        # nested batch of one
        if deep:
            nb = observed(op, "nested", jax.jit(jax.vmap(jax.vmap(go))), jax.tree_util.tree_map(lambda v: v[None], stack))
            same("nested-equals-batched", [v[0] for v in nb], bat, op)
        if case["N"] <= 4:
            with jax.disable_jit():
                un = np_(go(jins[0]))
            same("uncompiled-equals-compiled", un, ref[0], op)
            mon.count("uncompiled")
        if deep or rng.random() < .4:
            with jax.checking_leaks():
                lk = np_(jax.jit(lambda i: go(i))(jins[0]))
            same("leak-checked", lk, ref[0], op)
            mon.count("leak_checked")
        ops.append((op, go, prog, ins, jins, ref, eager[0], stack, bat))
        mon.count("ops")
        mon.ev(op, case["x64"], ins[0]["x"], n=len(ins))
    # history: the same calls again in random order, interleaved across entry points
    todo = [(o, k, how) for o in range(len(ops)) for k in range(len(ops[o][3])) for how in ("compiled", "fresh")] + [(o, 0, "eager") for o in range(len(ops))]
    for j in rng.permutation(len(todo)):
        o, k, how = todo[j]
        op, go, prog, ins, jins, ref, eager, stack, bat = ops[o]
        if how == "compiled":
            out, want = observed(op, how, prog, jins[k]), ref[k]
        elif how == "fresh":
            # traced again from scratch: the definition has no memory of earlier traces
            if k:
                continue
            out, want = observed(op, how, jax.jit(lambda i: go(i)), jins[k]), ref[k]
        else:
            out, want = observed(op, how, go, jins[k]), eager
        mon.count("repeats")
        for g, w in zip(out, want):
            mon.equal("repeat-identical", g, w, key=op, how=how)
    mon.true("process-state-untouched", session_state() == base_state, key="session")
    mon.sample(dict(ops=case["ops"], d=case["d"], N=case["N"]))
