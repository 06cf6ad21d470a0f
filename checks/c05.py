"""C05: Ito / Stratonovich conversion."""
import numpy as np

from vlib import fields as F

RULE = "a case is a batch of random (drift, d x m diffusion, state, time); the corrected drift is compared to a complex-step computation; non-trivial: correction non-zero"
REQUIRE = {"corrections": 500, "nonzero_corrections": 200, "roundtrips": 300, "callable_shapes": 10}
ASSUMPTIONS = []


def cases(tier, rng):
    out = []
    kinds = ["gen", "gen", "const", "time", "autonomous", "diag", "rankdef", "hypo", "zero"]
    dims = [(1, 1), (2, 2), (3, 3), (2, 1), (3, 2), (1, 3), (2, 4), (4, 4), (5, 2)]
    for i in range(24 if tier == "quick" else 240):
        out.append(dict(d=dims[i % 9][0], m=dims[i % 9][1], fk=["gen", "linear", "time", "zero"][int(rng.integers(4))],
                        sk=kinds[(i // 2) % 9] if i % 3 else "gen", K=40, x64=bool(i % 4 != 3)))
    for d, m in [(6, 3), (3, 7), (8, 8), (9, 2), (1, 6)] + ([(12, 12), (20, 5), (5, 20)] if tier != "quick" else []):
        out.append(dict(d=d, m=m, fk="gen", sk="gen", K=12, x64=True))
    out += [dict(special=s, x64=True, d=2, m=2, K=1) for s in ("gbm", "poly", "grad")]
    return out


def correction(sig, x, t):
    """sum_{j,k} sigma_jk d sigma_ik / d x_j by complex steps"""
    d = len(x)
    s0 = sig(x, t)
    c = np.zeros(d)
    for j in range(d):
        e = np.zeros(d, complex)
        e[j] = 1e-30j
        ds = np.imag(sig(x + e, t)) / 1e-30  # d sigma_ik / dx_j
        c += ds @ s0[j]
    return c


def run(case, mon):
    import jax
    import jax.numpy as jnp
    from bayesian_sde_solver.ito_stratonovich import to_ito, to_stratonovich
    rng = np.random.default_rng(case["seed"])
    if "special" in case:
        return special(case, mon, rng)
    d, m, K = case["d"], case["m"], case["K"]
    fp = F.stack([F.draw_drift(rng, d, case["fk"]) for _ in range(K)])
    sp = F.stack([F.draw_diffusion(rng, d, m, case["sk"]) for _ in range(K)])
    X = rng.normal(size=(K, d)) * 2
    X[1 % K] = 0.0
    X[2 % K] *= 10
    X[3 % K] *= 1e-6
    X[4 % K, 0] = 0.0
    T = rng.uniform(-3, 3, size=K)
    T[5 % K] = 0.0
    T[6 % K] = 50.0
    ty = np.float64 if case["x64"] else np.float32
    fp, sp = ({k: v.astype(ty) for k, v in p.items()} for p in (fp, sp))
    X, T = X.astype(ty), T.astype(ty)

    def go(fp, sp, x, t):
        f = lambda x, t: F.drift(jnp, fp, x, t)
        s = lambda x, t: F.sigma(jnp, sp, x, t)
        fs, ss = to_stratonovich(f, s)
        fi, si = to_ito(f, s)
        b1, sb1 = to_ito(*to_stratonovich(f, s))
        b2, sb2 = to_stratonovich(*to_ito(f, s))
        # the returned functions are smooth functions of state and time like the given ones (the filters differentiate them)
        der = lambda g: (jax.jacfwd(g)(x, t), jax.jacfwd(g, argnums=1)(x, t))
        rev = jax.jacrev(fs)(x, t)
        return (fs(x, t), ss(x, t), fi(x, t), si(x, t), b1(x, t), sb1(x, t), b2(x, t), sb2(x, t), s(x, t), f(x, t),
                *der(fs), *der(ss), *der(fi), *der(si), *der(s), rev)

    out = [np.asarray(o) for o in jax.jit(jax.vmap(go))(fp, sp, X, T)]
    eager = [np.asarray(o) for o in go(F.pick(fp, 0), F.pick(sp, 0), jnp.asarray(X[0]), T[0])]
    tol = dict(rtol=1e-11, atol=1e-12) if case["x64"] else dict(rtol=3e-5, atol=3e-5)
    for o, e in zip(out, eager):
        mon.close("eager-equals-batched", e, o[0], scale=1 + np.max(np.abs(o)), **tol)
    for i in range(K):
        P, S = ({k: v.astype(float) for k, v in F.pick(p, i).items()} for p in (fp, sp))
        x, t = X[i].astype(float), float(T[i])
        f0, s0 = F.drift(np, P, x, t), F.sigma(np, S, x, t)
        c = correction(lambda x, t: F.sigma(np, S, x, t), x, t)
        sc = 1 + np.max(np.abs(f0)) + np.max(np.abs(c)) + np.max(np.abs(s0)) ** 2
        mon.close("stratonovich-drift", out[0][i], f0 - c / 2, scale=sc, **tol)
        mon.close("ito-drift", out[2][i], f0 + c / 2, scale=sc, **tol)
        for k in (1, 3, 5, 7):
            mon.equal("diffusion-unchanged", out[k][i], out[8][i])
        mon.close("roundtrip", out[4][i], f0, scale=sc, **tol)
        mon.close("roundtrip", out[6][i], f0, scale=sc, **tol)
        mon.count("roundtrips", 2)
        if case["x64"] and i < 10:
            for o, tag in ((out[12:14], "stratonovich"), (out[16:18], "ito")):
                mon.close("returned-diffusion-derivative", o[0][i], out[18][i], rtol=1e-12, atol=1e-13, key=tag)
                mon.close("returned-diffusion-derivative", o[1][i], out[19][i], rtol=1e-12, atol=1e-13, key=tag)
            mon.close("returned-drift-derivative", out[20][i], out[10][i], scale=1 + np.max(np.abs(out[10][i])), rtol=1e-10, atol=0, key="reverse-mode")
            for sg, o in ((-.5, out[10:12]), (.5, out[14:16])):
                e = 1e-5
                g = lambda x, t: F.drift(np, P, x, t) + sg * correction(lambda x, t: F.sigma(np, S, x, t), x, t)
                num = np.stack([(g(x + e * v, t) - g(x - e * v, t)) / (2 * e) for v in np.eye(d)], axis=1)
                numt = (g(x, t + e) - g(x, t - e)) / (2 * e)
                big = 1 + np.max(np.abs(num)) + sc
                mon.close("returned-drift-derivative", o[0][i], num, scale=big, rtol=1e-6, atol=0, key="stratonovich" if sg < 0 else "ito")
                mon.close("returned-drift-derivative", o[1][i], numt, scale=big + np.max(np.abs(numt)), rtol=1e-6, atol=0, key="stratonovich" if sg < 0 else "ito")
                mon.count("derivatives", d + 1)
        mon.count("corrections")
        nz = bool(np.max(np.abs(c)) > 1e-6)
        mon.count("nonzero_corrections", nz)
        if case["sk"] in ("const", "time", "zero"):
            mon.close("state-independent-noise-unchanged", out[0][i], f0, scale=sc, **tol)
        mon.ev(x, S["S0"], P["A"], t, nontrivial=nz)
    mon.sample(dict(d=d, m=m, kind=case["sk"], x=X[0].tolist(), t=float(T[0]), drift=out[9][0].tolist(), stratonovich=out[0][0].tolist()))
    mon.count("callable_shapes")


def special(case, mon, rng):
    """closed-form corrections, and differentiability of the returned drift"""
    import jax
    import jax.numpy as jnp
    from bayesian_sde_solver.ito_stratonovich import to_ito, to_stratonovich
    if case["special"] == "gbm":
        B = rng.normal(size=(2, 2))
        # sigma_ik = sum_j B_ij x_j for each noise k with its own matrix: correction = sum_k B_k^2 x
        Bs = rng.normal(size=(3, 2, 2))
        s = lambda x, t: jnp.stack([jnp.asarray(Bk) @ x for Bk in Bs], axis=1)
        f = lambda x, t: jnp.asarray(B) @ x
        for _ in range(20):
            x = rng.normal(size=2) * 10 ** rng.uniform(-12, 12)
            c = sum(Bk @ Bk @ x for Bk in Bs)
            big = np.max(np.abs(x)) * (1 + sum(np.max(np.abs(Bk)) ** 2 for Bk in Bs))
            mon.close("linear-noise", to_stratonovich(f, s)[0](jnp.asarray(x), 0.3), B @ x - c / 2, scale=big, rtol=1e-12, atol=0)
            mon.close("linear-noise", to_ito(f, s)[0](jnp.asarray(x), 0.3), B @ x + c / 2, scale=big, rtol=1e-12, atol=0)
            mon.ev(x, B)
    elif case["special"] == "poly":
        s = lambda x, t: jnp.array([[x[0] * x[1] * t, x[1] ** 2, 0.], [x[0] ** 3, t, jnp.sin(x[0])]])
        f = lambda x, t: jnp.zeros(2)
        for _ in range(20):
            x, y = rng.normal(size=2)
            t = rng.normal()
            c0 = x * y * t * (y * t) + x ** 3 * (x * t) + t * 2 * y
            c1 = x * y * t * 3 * x ** 2 + 0 + np.cos(x) * 0.0
            c1 = (x * y * t) * 3 * x ** 2 + (0.0) * np.cos(x)
            mon.close("polynomial-noise", to_ito(f, s)[0](jnp.asarray([x, y]), t), np.array([c0, c1]) / 2, rtol=1e-10, atol=1e-11)
            mon.ev(x, y, t)
    else:
        sp = F.draw_diffusion(rng, 2, 2)
        fp = F.draw_drift(rng, 2)
        s = lambda x, t: F.sigma(jnp, sp, x, t)
        f = lambda x, t: F.drift(jnp, fp, x, t)
        g = to_stratonovich(f, s)[0]
        x = rng.normal(size=2)
        J = np.asarray(jax.jacfwd(g)(jnp.asarray(x), 0.4))
        n = np.zeros((2, 2))
        for j in range(2):
            e = np.zeros(2)
            e[j] = 1e-5
            r = lambda z: F.drift(np, fp, z, .4) - .5 * correction(lambda x, t: F.sigma(np, sp, x, t), z, .4)
            n[:, j] = (r(x + e) - r(x - e)) / 2e-5
        mon.close("differentiable", J, n, rtol=1e-6, atol=1e-6)
        mon.ev(x)
    mon.count("callable_shapes")
