"""C06: Euler-Maruyama on given increments."""
import numpy as np

from vlib import fields as F

RULE = ("a case is a batch of runs on random increments (numpy or JAX arrays, eager or jit+vmap), replayed by a numpy recursion; non-trivial: d-by-m noise and drift non-zero")
REQUIRE = {"steps": 2000, "mutation_checks": 20, "nonanticipation_checks": 10, "standard_runs": 30, "plain_runs": 30, "explosions": 6}
ASSUMPTIONS = []


def cases(tier, rng):
    out = []
    dims = [(2, 2), (1, 1), (3, 2), (2, 1), (1, 3), (2, 4), (4, 4)]
    kinds = [("gen", "gen"), ("time", "gen"), ("gen", "time"), ("linear", "const"), ("gen", "rankdef"), ("zero", "gen"), ("gen", "zero")]
    for i in range(24 if tier == "quick" else 260):
        d, m = dims[i % 7]
        fk, sk = kinds[(i // 2) % 7]
        h = [0.1, 0.01, 0.5, 1.0, 2e-3, 1, 1.7][int(rng.integers(7))]
        out.append(dict(d=d, m=m, fk=fk, sk=sk, h=h, N=int([1, 2, 5, 20, 60][rng.integers(5)]), K=8, x64=bool(i % 4 != 3),
                        mode=["jv", "eager-np", "eager-jnp"][i % 3] if i % 6 else "jv", standard=bool((i // 3) % 2)))
    wide = [(6, 5, .2, 30, True), (5, 9, .05, 70, False), (8, 1, .1, 130, True), (1, 8, .3, 300, False), (2, 2, 1e-6, 40, True), (2, 3, 8.0, 12, False), (2, 2, 1 / 3, 700, True), (3, 2, .07, 257, False)]
    for r in range(1 if tier == "quick" else 10):
        for d, m, h, N, std in wide:
            out.append(dict(d=d, m=m, fk=["gen", "time"][r % 2], sk="gen" if h < 5 else "time", h=h, N=N + r, K=2, x64=True, mode="jv", standard=std ^ bool(r % 2)))
    out.append(dict(d=2, m=2, fk="gen", sk="gen", h=.1, N=2500, K=1, x64=True, mode="jv", standard=True))
    out.append(dict(d=2, m=2, fk="gen", sk="gen", h=1e-3, N=3000 if tier == "quick" else 20000, K=2, x64=True, mode="jv", standard=False))
    out.append(dict(d=2, m=3, fk="gen", sk="gen", h=0.3, N=6, K=1, x64=True, mode="eager-np", standard=True))
    out.append(dict(d=2, m=3, fk="gen", sk="gen", h=0.3, N=6, K=1, x64=True, mode="default-flag", standard=False))
    out += [dict(kind="explosion", standard=bool(i), x64=True) for i in range(2)]
    return out


def replay(P, S, x0, dW, h, N, wobble=0.0):
    xs = [np.asarray(x0, float)]
    for k in range(N):
        x, t = xs[-1] * (1 + wobble * (-1) ** k), k * h
        xs.append(x + h * F.drift(np, P, x, t) + F.sigma(np, S, x, t) @ dW[k])
    return np.stack(xs)


def run(case, mon):
    import jax
    import jax.numpy as jnp
    from bayesian_sde_solver.sde_solvers import euler_maruyama_pathwise
    rng = np.random.default_rng(case["seed"])
    if case.get("kind") == "explosion":
        return F.explosion(mon, rng, lambda x, f, h, N: euler_maruyama_pathwise(rng.normal(size=(N, 2)), x, f, lambda x, t: jnp.zeros((2, 2)), h, N, standard=case["standard"])[1])
    d, m, h, N, K, std = case["d"], case["m"], case["h"], case["N"], case["K"], case["standard"]
    if case["mode"] != "jv":
        K = 1
    size = min(1.0, 0.7 / (h * 1.5))
    ty = np.float64 if case["x64"] else np.float32
    c32 = lambda p: {k: v.astype(ty) for k, v in p.items()}
    fp = c32(F.stack([F.draw_drift(rng, d, case["fk"], size) for _ in range(K)]))
    sp = c32(F.stack([F.draw_diffusion(rng, d, m, case["sk"], min(1.0, size)) for _ in range(K)]))
    x0 = rng.normal(size=(K, d)).astype(ty)
    F.unusual(rng, x0, far=case.get("x64", True))
    incs = (rng.normal(size=(K, N, m)) * (1.0 if std else np.sqrt(h))).astype(ty)
    if case["x64"] and K >= 3:  # increments are whatever the caller gives: shocks, none at all, one sign only
        incs[0] = np.where(rng.random((N, m)) < .25, incs[0] * 10 ** rng.uniform(.5, 2.5, (N, m)), incs[0])
        incs[1] = np.abs(incs[1])
        incs[2] = 0
    keep = incs.copy(), x0.copy()
    flag = {} if case["mode"] == "default-flag" else dict(standard=std)

    def go(inc, x, fp, sp):
        return euler_maruyama_pathwise(inc, x, lambda x, t: F.drift(jnp, fp, x, t), lambda x, t: F.sigma(jnp, sp, x, t), h, N, **flag)

    if case["mode"] == "jv":
        call = lambda inc: tuple(map(np.asarray, jax.jit(jax.vmap(go))(inc, x0, fp, sp)))
        prep = lambda inc: inc
    else:
        conv = (lambda z: z) if case["mode"] != "eager-jnp" else jnp.asarray
        prep = lambda inc: conv(inc[0])
        call = lambda inc: tuple(np.asarray(o)[None] for o in go(inc, conv(x0[0]), F.pick(fp, 0), F.pick(sp, 0)))
    arg = prep(incs)
    ts, xs = call(arg)
    mon.equal("increments-untouched", np.asarray(arg).reshape(incs.shape), keep[0], key=case["mode"])
    mon.equal("increments-untouched", incs, keep[0])
    mon.equal("initial-state-untouched", x0, keep[1])
    mon.count("mutation_checks", 3)
    ts2, xs2 = call(arg)  # a second call with the very same array object
    mon.equal("same-call-same-result", xs2, xs, key=case["mode"])
    tol = dict(rtol=1e-9, atol=1e-10) if case["x64"] else dict(rtol=1e-3, atol=1e-3)
    f64 = lambda p: {k: v.astype(float) for k, v in p.items()}
    for i in range(K):
        dW = incs[i].astype(float) * (np.sqrt(h) if std else 1.0)
        want = replay(f64(F.pick(fp, i)), f64(F.pick(sp, i)), x0[i], dW, h, N)
        mon.close("grid", ts[i], np.arange(N + 1) * h, rtol=1e-12 if case["x64"] else 1e-6, atol=1e-12 if case["x64"] else 1e-6 * N * h)
        mon.true("shape", xs[i].shape == (N + 1, d), got=list(xs[i].shape))
        mon.equal("initial-row", xs[i][0], x0[i])
        if N <= 100:  # allowance for the rounding of the steps, as far as the path itself amplifies it
            amp = np.max(np.abs(replay(f64(F.pick(fp, i)), f64(F.pick(sp, i)), x0[i], dW, h, N, 1e-9) - want)) / 1e-9
            tiny = 2.0 ** -52 if case["x64"] else 2.0 ** -23
            if amp * 1e-9 < 1e-3 * (1 + np.max(np.abs(want))):  # else chaotic: the steps are compared one by one below
                mon.close("path", xs[i], want, scale=np.max(np.abs(want)) + 1e3 * tiny * amp / tol["rtol"], key="standard" if std else "plain", **tol)
        if xs[i].shape == (N + 1, d):  # one step from the recorded state
            P, S, X = f64(F.pick(fp, i)), f64(F.pick(sp, i)), xs[i].astype(float)
            one = np.stack([X[k] + h * F.drift(np, P, X[k], k * h) + F.sigma(np, S, X[k], k * h) @ dW[k] for k in range(N)])
            mon.close("one-step", X[1:], one, scale=1 + np.max(np.abs(one), axis=1, keepdims=True) + np.max(np.abs(X[:-1]), axis=1, keepdims=True), rtol=1e-10 if case["x64"] else 2e-5, atol=0, key="standard" if std else "plain")
        mon.count("steps", N)
        mon.count("standard_runs" if std else "plain_runs")
        mon.ev(x0[i], incs[i], nontrivial=bool(case["fk"] != "zero" and case["sk"] != "zero"))
    # non-anticipation: perturb one increment, the past stays bit-identical and that step reacts
    j = int(rng.integers(0, N))
    inc2 = incs.copy()
    inc2[:, j] += 1.0
    ts3, xs3 = call(prep(inc2))
    mon.equal("past-unchanged", xs3[:, :j + 1], xs[:, :j + 1])
    if case["sk"] != "zero" and not (case["sk"] == "rankdef" and m == 1) and np.max(np.abs(xs)) < 100:
        mon.true("present-reacts", bool(np.all(np.any(xs3[:, j + 1] != xs[:, j + 1], axis=-1))), step=j)
    mon.count("nonanticipation_checks")
    mon.sample(dict(case={k: case[k] for k in ("d", "m", "fk", "sk", "h", "N", "mode", "standard")}, x_end=xs[0, -1].tolist()))
