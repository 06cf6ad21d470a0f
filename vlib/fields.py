"""Random smooth drifts and diffusions, written once for numpy (the oracle) and jax.numpy (the code under test).

f(x,t)     = A x + B sin(C x + w t + p) + c t                       in R^d
sigma(x,t) = S0 + sum_l S1[:,:,l] sin(E x + v t + q)_l               in R^(d x m)
Special families are obtained by zeroing parameters, so one compiled program serves a whole batch of draws.
"""
import numpy as np


def draw_drift(rng, d, kind="gen", size=1.0):
    n = lambda *s: rng.normal(size=s)
    p = dict(A=n(d, d) * .7, B=n(d, d) * .8, C=n(d, d) * .8, w=n(d) * 1.5, p=n(d), c=n(d) * .7)
    z = {k: np.zeros_like(v) for k, v in p.items()}
    if kind == "linear":
        p.update(B=z["B"], c=z["c"])
    elif kind == "autonomous":
        p.update(w=z["w"], c=z["c"])
    elif kind == "time":
        p.update(A=z["A"], C=z["C"])
    elif kind == "const":
        p.update(A=z["A"], B=z["B"], c=z["c"])
        p["B"] = np.diag(rng.normal(size=d))
        p.update(C=z["C"], w=z["w"])
    elif kind == "zero":
        p = z
    elif kind == "decoupled":
        for k in "ABC":
            p[k] = np.diag(np.diag(p[k]))
    elif kind != "gen":
        raise ValueError(kind)
    return {k: v * (size if k in "ABc" else 1.0) for k, v in p.items()}


def draw_diffusion(rng, d, m=None, kind="gen", size=1.0):
    m = d if m is None else m
    n = lambda *s: rng.normal(size=s)
    p = dict(S0=n(d, m), S1=n(d, m, d) * .4, E=n(d, d) * .8, v=n(d) * 1.5, q=n(d))
    z = {k: np.zeros_like(v) for k, v in p.items()}
    if kind == "const":
        p.update(S1=z["S1"])
    elif kind == "time":
        p.update(E=z["E"])
    elif kind == "autonomous":
        p.update(v=z["v"])
    elif kind == "diag":
        p["S0"] = np.eye(d, m) * p["S0"]
        p["S1"] = np.eye(d, m)[:, :, None] * p["S1"]
    elif kind == "diagown":  # diagonal, entry i depends on coordinate i (and t) only
        p["S0"] = np.eye(d, m) * p["S0"]
        s1 = np.zeros((d, m, d))
        for i in range(min(d, m)):
            s1[i, i, i] = p["S1"][i, i, i] + .5
        p["S1"] = s1
        p["E"] = np.diag(np.diag(p["E"]) + .5)
    elif kind == "zero":
        p.update(S0=z["S0"], S1=z["S1"])
    elif kind == "hypo":  # noise does not enter the first coordinate
        p["S0"][0] = 0
        p["S1"][0] = 0
    elif kind == "rankdef":
        p["S0"][:, 0] = 0
        p["S1"][:, 0] = 0
    elif kind != "gen":
        raise ValueError(kind)
    return {k: v * (size if k in ("S0", "S1") else 1.0) for k, v in p.items()}


def stack(ps):
    return {k: np.stack([p[k] for p in ps]) for k in ps[0]}


def drift(xp, P, x, t):
    return P["A"] @ x + P["B"] @ xp.sin(P["C"] @ x + P["w"] * t + P["p"]) + P["c"] * t


def sigma(xp, P, x, t):
    return P["S0"] + P["S1"] @ xp.sin(P["E"] @ x + P["v"] * t + P["q"])


# analytic derivatives (numpy oracles)
def drift_jac(P, x, t):
    return P["A"] + P["B"] @ (np.cos(P["C"] @ x + P["w"] * t + P["p"])[:, None] * P["C"])


def drift_dt(P, x, t):
    return P["B"] @ (np.cos(P["C"] @ x + P["w"] * t + P["p"]) * P["w"]) + P["c"]


def drift_hess(P, x, t):
    s = -np.sin(P["C"] @ x + P["w"] * t + P["p"])
    return np.einsum("il,l,lj,lk->ijk", P["B"], s, P["C"], P["C"])


def sigma_jac(P, x, t):
    """d sigma_{ik} / d x_j  as [i,k,j]"""
    c = np.cos(P["E"] @ x + P["v"] * t + P["q"])
    return np.einsum("ikl,l,lj->ikj", P["S1"], c, P["E"])


def sigma_hess(P, x, t):
    s = -np.sin(P["E"] @ x + P["v"] * t + P["q"])
    return np.einsum("ikl,l,lj,ln->ikjn", P["S1"], s, P["E"], P["E"])


def pick(P, i):
    return {k: v[i] for k, v in P.items()}


def unusual(rng, x, far=True):
    """makes the last starts of a batch (rows of x, in place) unusual: far away, exact zeros, tiny, equal coordinates, one sign, integers"""
    K = len(x)
    how = [lambda v: v * 10 ** rng.uniform(1, 4)] if far else []
    rest = [lambda v: np.where(rng.random(v.shape) < .6, 0., v), lambda v: v * 10 ** rng.uniform(-9, -3), lambda v: 0 * v + v.flat[0], lambda v: -np.abs(v), lambda v: np.round(2 * v)]
    how += [rest[i] for i in rng.permutation(len(rest))]
    for j, g in enumerate(how[:max(0, K - 2)]):
        x[-1 - j] = g(x[-1 - j])


def explosion(mon, rng, go, last_only=False):
    """an exploding path is reported as such: go(x0, f, h, N) of x' = c x^3 follows the recursion up to its overflow and is not finite after it"""
    with np.errstate(all="ignore"):
        for _ in range(3):
            c, h, N = float(rng.uniform(.5, 2) * rng.choice([-1, 1])), float(rng.uniform(.3, 1)), int(rng.integers(9, 14))
            want = [rng.uniform(4, 12, size=2) * rng.choice([-1., 1.], size=2)]
            for k in range(N):
                want.append(want[-1] + h * c * want[-1] ** 3)
            want = np.array(want)
            got = np.asarray(go(want[0], lambda x, t: c * x ** 3, h, N), float)
            ref = want[-1] if last_only else want
            mon.true("explosion-visible", got.shape == ref.shape and bool(np.all(np.isfinite(got) == np.isfinite(ref))), got=got.tolist(), want=ref.tolist())
            if got.shape == ref.shape:
                ok = np.isfinite(ref) & (np.abs(ref) < 1e280)
                mon.close("explosion-path", got[ok], ref[ok], scale=np.abs(ref[ok]), rtol=1e-7, atol=0)
            if last_only:  # as far as it is finite, too
                n = int(np.argmax(~np.all(np.isfinite(want), axis=1))) - 1
                mon.close("explosion-path", np.asarray(go(want[0], lambda x, t: c * x ** 3, h, n), float), want[n], scale=np.abs(want[n]), rtol=1e-7, atol=0)
            mon.count("explosions")
            mon.ev("explosion", c, h, N)
