"""C20: state layout, padding, composition of priors."""
import numpy as np
import scipy.linalg as sla

from vlib import fields as F
from vlib import priors, refs

RULE = ("'helpers' compares the layout helpers with index arithmetic on random arrays; 'perm', 'split', 'pad' run the filters on relabelled, decoupled and padded versions of random problems and compare; "
        "non-trivial: heterogeneous coordinates")
REQUIRE = {"helpers": 150, "permutations": 100, "splits": 100, "paddings": 60, "ssm_permutations": 20, "propagating": 30}
ASSUMPTIONS = ["innovation covariance non-singular"]


def cases(tier, rng):
    out = []
    T = tier == "quick"
    for i in range(6 if T else 40):
        out.append(dict(kind="helpers", K=30))
    fil = ["ekf0", "ekf1_2", "ekf1", "ssm1", "ekf0_2", "ssm0"]
    for i in range(18 if T else 180):
        out.append(dict(kind="perm", filter=fil[i % 6], d=[2, 3, 4][(i // 6 + i) % 3], q=[1, 2, 3][(i // 6) % 3], prior=["mixed", "default", "mixed"][(i // 3) % 3], noise=["none", "full", "diag"][(i // 2) % 3], N=[1, 4, 9][(i // 4) % 3], h=[.1, .03, .3][(i // 5) % 3],
                        sqrt=bool((i // 3) % 2), K=12))
    for i in range(12 if T else 120):
        out.append(dict(kind="split", filter=["ekf0", "ekf1", "ekf0_2", "ekf1_2"][i % 4], d=[2, 3][(i // 4) % 2], q=[1, 2, 3][(i // 4) % 3], prior=["mixed", "default", "matern"][(i // 2) % 3], noise=["none", "diag"][(i // 2) % 2], N=[2, 7][(i // 3) % 2], h=[.1, .03, .3][i % 3],
                        sqrt=bool((i // 5) % 2), K=12))
    for i in range(8 if T else 80):
        out.append(dict(kind="pad", filter=["ekf0", "ekf1"][i % 2], d=[1, 2, 3][i % 3], q=[1, 2, 1][(i // 2) % 3], q2=[2, 3, 3][(i // 2) % 3], prior=["ibm-scaled", "mixed", "matern", "drifted"][i % 4], noise=["none", "full"][(i // 2) % 2], N=[1, 5, 9][i % 3], h=[.1, .3][(i // 3) % 2],
                        sqrt=bool((i // 3) % 2), K=12))
    for i, (f, d, q, pr, noise, N, h) in enumerate([("ekf1", 6, 1, "mixed", "full", 3, .1), ("ekf0", 5, 4, "ibm-scaled", "full", 3, .2), ("ekf1_2", 7, 1, "mixed", "full", 2, .1), ("ssm1", 5, 1, "default", "full", 2, .1), ("ekf1", 2, 2, "mixed", "none", 60, .03), ("ekf0_2", 3, 1, "default", "full", 40, .05), ("ssm0", 3, 1, "mixed", "none", 30, .03)]):
        out.append(dict(kind="perm", filter=f, d=d, q=q, prior=pr, noise=noise, N=N, h=h, sqrt=bool(i % 2), K=4))
        if not f.startswith("ssm"):
            out.append(dict(kind="split", filter=f, d=d, q=q, prior=pr, noise="diag" if noise == "full" else "none", N=N, h=h, sqrt=bool(i % 2 == 0), K=4))
    for i, (d, q, q2, N) in enumerate([(2, 1, 4, 5), (4, 1, 2, 4), (2, 2, 5, 3), (1, 1, 3, 50), (3, 3, 4, 4)]):
        out.append(dict(kind="pad", filter=["ekf1", "ekf0"][i % 2], d=d, q=q, q2=q2, prior=["mixed", "drifted"][i % 2] if q < 3 else "ibm-scaled", noise=["none", "full"][i % 2], N=N, h=.1, sqrt=bool(i % 2), K=4))
    return out


def run(case, mon):
    return dict(helpers=helpers, perm=perm, split=split, pad=pad)[case["kind"]](case, mon)


def helpers(case, mon):
    import jax.numpy as jnp
    from bayesian_sde_solver.ode_solvers.probnum import get_independently_factorized_prior, interlace, interlace_matrix, pad_prior
    rng = np.random.default_rng(case["seed"])
    for _ in range(case["K"]):
        n, d = int(rng.integers(1, 10)), int(rng.integers(1, 10))
        arrs = rng.normal(size=(n, d))
        got = np.asarray(interlace(tuple(jnp.asarray(a) for a in arrs)))
        want = np.array([arrs[i, j] for j in range(d) for i in range(n)])
        mon.equal("interlace", got, want)
        b = rng.normal(size=(4, d, d))
        got = np.asarray(interlace_matrix(*(jnp.asarray(x) for x in b)))
        want = np.zeros((2 * d, 2 * d))
        for i in range(d):
            for j in range(d):
                want[2 * i:2 * i + 2, 2 * j:2 * j + 2] = [[b[0, i, j], b[1, i, j]], [b[2, i, j], b[3, i, j]]]
        mon.equal("interlace-matrix", got, want)
        q = int(rng.integers(0, 4))
        q2 = q + int(rng.integers(1, 8))
        t = (rng.normal(size=q + 1), rng.normal(size=(q + 1, q + 1)), rng.normal(size=(q + 1, q + 1)))
        got = [np.asarray(v) for v in pad_prior(tuple(jnp.asarray(v) for v in t), q2)]
        for g, w, nm in zip(got, priors.pad(t, q2), ("xi", "Q", "A")):
            mon.equal("pad:" + nm, g, w)
        bl = []
        for _ in range(int(rng.integers(1, 12))):
            m = int(rng.integers(1, 7))
            bl.append((rng.normal(size=m), rng.normal(size=(m, m)), rng.normal(size=(m, m))))
        got = [np.asarray(v) for v in get_independently_factorized_prior(tuple(tuple(jnp.asarray(v) for v in t) for t in bl))]
        for g, w, nm in zip(got, priors.stack_blocks(bl), ("xi", "Q", "A")):
            mon.equal("compose:" + nm, g, w)
        mon.count("helpers")
        mon.ev(arrs, b)


def filters():
    from bayesian_sde_solver.ode_solvers import ekf0, ekf1, ekf0_2, ekf1_2
    from bayesian_sde_solver.ssm_parabola import ekf0_marginal_parabola, ekf1_marginal_parabola
    return dict(ekf0=ekf0, ekf1=ekf1, ekf0_2=ekf0_2, ekf1_2=ekf1_2, ssm0=ekf0_marginal_parabola, ssm1=ekf1_marginal_parabola)


def runner(case, q):
    """-> f(field, sigma, x0, P0, prior, R, d) -> dict of outputs; prior None means default"""
    name = case["filter"]
    solver = filters()[name]
    N, h = case["N"], case["h"]

    def go(f, s, x, P0, prior, R):
        kw = dict(sqrt=case["sqrt"])
        if prior is not None:
            kw["prior"] = tuple(prior)
        if R is not None:
            kw["noise"] = R
        if name.startswith("ssm"):
            y, W, I = solver(None, x, N * h, f, s, h, N, **kw)
            return dict(y=y, W=W, I=I)
        if name.endswith("_2"):
            _, m, P = solver(None, (x, x, P0), f, h, N, **kw)
            return dict(y=m, P=P)
        return dict(y=solver(None, x, f, h, N, **kw))
    return go


def draw(case, rng, d, q, K, fk="gen", nk=None):
    B = dict(fp=F.stack([F.draw_drift(rng, d, fk, .8) for _ in range(K)]), sp=F.stack([F.draw_diffusion(rng, d, d, "gen", .7) for _ in range(K)]), x=rng.normal(size=(K, d)))
    L = rng.normal(size=(K, d, d)) * .2
    B["P0"] = L @ np.swapaxes(L, 1, 2)
    if fk == "decoupled":
        B["P0"] = B["P0"] * np.eye(d)
    if case["prior"] != "default":
        n = 1 if case["filter"].startswith("ssm") else d
        pr = [priors.draw(rng, "matern" if case["filter"].startswith("ssm") else case["prior"], q, case["h"], n) for _ in range(K)]
        B["pr"] = [np.stack([p[j] for p in pr]) for j in range(3)]
    if case["noise"] != "none":
        B["R"] = np.stack([priors.draw_noise(rng, case["noise"], d) for _ in range(K)])
    return B


def well_posed(case, b, q, d, mon):
    """skip problems on which rounding is amplified by the filter itself"""
    ssm = case["filter"].startswith("ssm")
    pr = b.get("pr") or refs.ibm(q, case["h"], 1 if ssm else d)
    f, J, D = (lambda x, t: F.drift(np, b["fp"], x, t)), (lambda x, t: F.drift_jac(b["fp"], x, t)), (lambda x, t: F.drift_dt(b["fp"], x, t))
    if ssm:
        s, sj = (lambda x, t: F.sigma(np, b["sp"], x, t)), (lambda x, t: F.sigma_jac(b["sp"], x, t))
        fun = lambda: refs.alg4(b["x"], f, J, s, sj, case["h"] * case["N"], case["h"], case["N"], pr, R=b.get("R"), ekf0="0" in case["filter"])[:2]
    else:
        fun = lambda: refs.ode_filter(b["x"], f, J, D, case["h"], case["N"], pr, q + 1, R=b.get("R"), ekf0="0" in case["filter"])[:2]
    _, amp = refs.amplification(fun, runs=1)
    if amp[0] > 1e5:
        mon.count("skipped_ill_conditioned")
        return False
    return True


def compare(mon, name, got, want, key):
    for k in want:
        sc = 1 + np.max(np.abs(want[k])) if k != "P" else max(np.max(np.abs(want[k])), 1e-8)
        mon.close(name + ":" + k, got[k], want[k], rtol=1e-7, atol=1e-14, scale=sc, key=key)


def perm(case, mon):
    import jax
    import jax.numpy as jnp
    rng = np.random.default_rng(case["seed"])
    d, K, name = case["d"], case["K"], case["filter"]
    ssm = name.startswith("ssm")
    q = 1 if ssm or name.endswith("_2") or case["prior"] == "default" else case["q"]
    B = draw(case, rng, d, q, K)
    go = runner(case, q)
    pi = np.array([rng.permutation(d) for _ in range(K)])
    pi[0] = np.roll(np.arange(d), 1)
    bi = np.array([rng.permutation(d) for _ in range(K)])  # relabelling of the Brownian coordinates
    n = q + 1

    def one(B, p, b):
        f = lambda x, t: F.drift(jnp, B["fp"], x, t)
        s = lambda x, t: F.sigma(jnp, B["sp"], x, t)
        inv = jnp.argsort(p)
        a = go(f, s, B["x"], B["P0"], B.get("pr"), B.get("R"))
        pr = B.get("pr")
        if pr is not None and not ssm:
            ix = (p[:, None] * n + jnp.arange(n)).reshape(-1)
            pr = [pr[0][ix], pr[1][ix][:, ix], pr[2][ix][:, ix]]
        R = B.get("R")
        if R is not None:
            R = R[p][:, p]
        c = go(lambda x, t: f(x[inv], t)[p], lambda x, t: s(x[inv], t)[p][:, b], B["x"][p], B["P0"][p][:, p], pr, R)
        w = dict(y=a["y"][p])
        if "P" in a:
            w["P"] = a["P"][p][:, p]
        if ssm:
            w["W"], w["I"] = a["W"][b], a["I"][b]
        return c, w

    if ssm:  # the increments are stored beside the coordinate of the same label; here both are relabelled freely
        pass
    got, want = jax.tree_util.tree_map(np.asarray, jax.jit(jax.vmap(one))(B, pi, bi))
    for i in range(K):
        b = jax.tree_util.tree_map(lambda a: a[i], B)
        if not np.all(np.abs(want["y"][i]) < 1e5) or not well_posed(case, b, q, d, mon):
            continue
        compare(mon, "relabelling", {k: v[i] for k, v in got.items()}, {k: v[i] for k, v in want.items()}, name)
        mon.count("ssm_permutations" if ssm else "permutations")
        mon.count("propagating", name.endswith("_2"))
        mon.ev(b["x"], pi[i], want["y"][i], nontrivial=not np.array_equal(pi[i], np.arange(d)))


def split(case, mon):
    import jax
    import jax.numpy as jnp
    rng = np.random.default_rng(case["seed"])
    d, K, name = case["d"], case["K"], case["filter"]
    q = 1 if name.endswith("_2") or case["prior"] == "default" else case["q"]
    B = draw(case, rng, d, q, K, "decoupled")
    go = runner(case, q)
    n = q + 1
    whole = jax.jit(jax.vmap(lambda B: go(lambda x, t: F.drift(jnp, B["fp"], x, t), None, B["x"], B["P0"], B.get("pr"), B.get("R"))))
    got = jax.tree_util.tree_map(np.asarray, whole(B))

    def part(B, j):
        fp = {k: (v[:, j:j + 1, j:j + 1] if v.ndim == 3 else v[:, j:j + 1]) for k, v in B["fp"].items()}
        o = dict(fp=fp, x=B["x"][:, j:j + 1], P0=B["P0"][:, j:j + 1, j:j + 1])
        if "pr" in B:
            ix = slice(j * n, (j + 1) * n)
            o["pr"] = [B["pr"][0][:, ix], B["pr"][1][:, ix, ix], B["pr"][2][:, ix, ix]]
        if "R" in B:
            o["R"] = B["R"][:, j:j + 1, j:j + 1]
        return o
    pieces = [jax.tree_util.tree_map(np.asarray, whole(part(B, j))) for j in range(d)]
    for i in range(K):
        b = jax.tree_util.tree_map(lambda a: a[i], B)
        want = dict(y=np.concatenate([p["y"][i] for p in pieces]))
        if "P" in got:
            want["P"] = sla.block_diag(*[p["P"][i] for p in pieces])
        if not np.all(np.abs(want["y"]) < 1e5) or not well_posed(case, b, q, d, mon):
            continue
        compare(mon, "decoupling", {k: v[i] for k, v in got.items()}, want, name)
        mon.count("splits")
        mon.count("propagating", name.endswith("_2"))
        mon.ev(b["x"], want["y"])


def pad(case, mon):
    import jax
    import jax.numpy as jnp
    from bayesian_sde_solver.ode_solvers.probnum import get_independently_factorized_prior, pad_prior
    rng = np.random.default_rng(case["seed"])
    d, K, name, q, q2 = case["d"], case["K"], case["filter"], case["q"], case["q2"]
    B = draw(case, rng, d, q, K)
    n = q + 1
    go = runner(case, q)

    def one(B):
        f = lambda x, t: F.drift(jnp, B["fp"], x, t)
        a = go(f, None, B["x"], B["P0"], B["pr"], B.get("R"))
        bl = [pad_prior((B["pr"][0][j * n:j * n + n], B["pr"][1][j * n:j * n + n, j * n:j * n + n], B["pr"][2][j * n:j * n + n, j * n:j * n + n]), q2) for j in range(d)]
        c = go(f, None, B["x"], B["P0"], get_independently_factorized_prior(tuple(bl)), B.get("R"))
        return c, a
    got, want = jax.tree_util.tree_map(np.asarray, jax.jit(jax.vmap(one))(B))
    for i in range(K):
        b = jax.tree_util.tree_map(lambda a: a[i], B)
        if not np.all(np.abs(want["y"][i]) < 1e5) or not well_posed(case, b, q, d, mon):
            continue
        compare(mon, "padding", {k: v[i] for k, v in got.items()}, {k: v[i] for k, v in want.items()}, name)
        mon.count("paddings")
        mon.ev(b["x"], want["y"][i])
