"""Runs the experiment scripts of /repo/scripts under observation."""
import contextlib
import glob
import os
import re
import runpy
import shutil
import tempfile

import numpy as np

from vlib import core

FHN, IBM, FHN4, IBM4 = "fhn", "ibm", "square_matrix_fhn", "square_matrix_ibm"


class Stop(Exception):
    pass


class Session:
    """What a script did: the concrete keys it split, and the files it wrote (in order)."""

    def __init__(self, script, K=None, res=None):
        self.script, self.K, self.res = script, K, res
        self.splits, self.files, self.plots = [], [], []

    def run(self):
        import sys
        import types
        import jax
        import jax.numpy as jnp
        split, save, jsave, dis, out = jax.random.split, np.save, jnp.save, jax.disable_jit, sys.stdout
        path, mods0 = list(sys.path), set(sys.modules)
        here = os.path.dirname(os.path.join(core.REPO, "scripts", self.script))
        cwd, scratch = os.getcwd(), tempfile.mkdtemp(prefix="c27.")
        big = [0]

        def split_(key, num=2):
            n = num
            if isinstance(n, tuple) and len(n) == 1:
                n = n[0]
            concrete = not isinstance(key, jax.core.Tracer)
            if isinstance(n, (int, np.integer)) and n >= 1000 and self.K and concrete and key.ndim == 1:
                n = self.K
                big[0] += 1
                if self.res and big[0] > self.res:
                    raise Stop()
            r = split(key, n)
            if concrete:
                self.splits.append((np.asarray(key), n, np.asarray(r)))
            return r

        def save_(file, arr, *a, **k):
            r = save(file, arr, *a, **k)
            name = os.path.basename(str(getattr(file, "name", file)))
            self.files.append((name if name.endswith(".npy") else name + ".npy", np.array(arr), len(self.splits)))
            return r

        class Plot(types.ModuleType):
            def __getattr__(s, name):
                return lambda *a, **k: self.plots.append((name, [np.asarray(x) for x in a], k))
        mods = {}
        try:
            import matplotlib.pyplot  # noqa: F401
        except Exception:
            top, plt = types.ModuleType("matplotlib"), Plot("matplotlib.pyplot")
            plt.__path__, top.__path__, top.pyplot = [], [], plt
            mods = {"matplotlib": top, "matplotlib.pyplot": plt}
        sys.modules.update(mods)
        jax.random.split, np.save, jnp.save, jax.disable_jit = split_, save_, save_, (lambda *a, **k: contextlib.nullcontext())
        sys.path.insert(0, here)  # as for any script run by its path
        try:
            os.chdir(scratch)
            sys.stdout = open(os.devnull, "w")
            try:
                self.globals = runpy.run_path(os.path.join(core.REPO, "scripts", self.script), run_name="__main__")
            except Stop:
                pass
            finally:
                sys.stdout = out
            on_disk = {os.path.basename(f) for f in glob.glob(scratch + "/**/*.npy", recursive=True)}
            self.lost = [n for n, _, _ in self.files if n not in on_disk]
        finally:
            os.chdir(cwd)
            jax.random.split, np.save, jnp.save, jax.disable_jit = split, save, jsave, dis
            sys.path[:] = path
            for m in set(sys.modules) - mods0:
                if str(getattr(sys.modules[m], "__file__", "")).startswith(os.path.join(core.REPO, "scripts")):
                    del sys.modules[m]
            for m in mods:
                sys.modules.pop(m, None)
            shutil.rmtree(scratch, ignore_errors=True)
        return self

    def keys(self, n, before):
        """the Monte-Carlo keys in force when a file with n paths was saved"""
        for key, num, r in reversed(self.splits[:before]):
            if num == n and r.shape[0] == n:
                return r
        return None

    def all(self, pattern):
        return [(m, arr, at) for name, arr, at in self.files for m in [re.search(pattern, name)] if m]


def field(prob):
    """numpy drift and (constant) diffusion column of the two planar problems, and the initial state"""
    if prob.endswith("fhn"):
        return (lambda x: np.stack([(x[..., 0] - x[..., 0] ** 3 - x[..., 1]) / .1, 1.5 * x[..., 0] - x[..., 1] + .8], -1)), np.array([0., .3]), np.zeros(2)
    return (lambda x: np.stack([x[..., 1], 0 * x[..., 1]], -1)), np.array([0., 1.]), np.ones(2)


def em_path(prob, incs, h):
    """(paths, steps) increments -> (paths, steps+1, 2)"""
    f, s, x0 = field(prob)
    x = np.broadcast_to(x0, (incs.shape[0], 2)).astype(float)
    if incs.shape[1] > 20000:  # the same recursion, compiled
        import jax
        import jax.numpy as jnp
        F = (lambda x: jnp.stack([(x[:, 0] - x[:, 0] ** 3 - x[:, 1]) / .1, 1.5 * x[:, 0] - x[:, 1] + .8], -1)) if prob.endswith("fhn") else (lambda x: jnp.stack([x[:, 1], 0 * x[:, 1]], -1))
        step = lambda x, w: (lambda y: (y, y))(x + h * F(x) + w[:, None] * s)
        return np.concatenate([x[:, None], np.swapaxes(np.asarray(jax.lax.scan(step, jnp.asarray(x), jnp.asarray(incs.T))[1]), 0, 1)], 1)
    out = [x]
    for k in range(incs.shape[1]):
        x = x + h * f(x) + incs[:, k, None] * s
        out.append(x)
    return np.stack(out, 1)


def tol(case):
    return dict(rtol=1e-8, atol=1e-9) if case["x64"] else dict(rtol=5e-3, atol=3e-3)
