"""Prior zoo: (xi, Q, A) triples in float64 numpy, per-coordinate layout, built independently of the code under test."""
import numpy as np

from vlib import refs


def stack_blocks(blocks):
    import scipy.linalg as sla
    return (np.concatenate([b[0] for b in blocks]), sla.block_diag(*[b[1] for b in blocks]), sla.block_diag(*[b[2] for b in blocks]))


def pad(block, q):
    xi, Q, A = block
    n = q + 1 - len(xi)
    return np.concatenate([xi, np.zeros(n)]), np.pad(Q, (0, n)), np.pad(A, (0, n))


def one(rng, kind, q, h):
    """a scalar-coordinate prior of order q (q+1 states)"""
    if kind == "ibm":
        return refs.ibm(q, h, 1, 1.0)
    if kind == "ibm-scaled":
        return refs.ibm(q, h, 1, float(np.exp(rng.normal())))
    if kind == "ioup":
        th = float(np.exp(rng.normal()))
        F = np.diag(np.ones(q), 1)
        F[-1, -1] = -th
        L = np.zeros((q + 1, 1))
        L[-1] = np.exp(rng.normal() * .5)
        return refs.lsde(F, np.zeros(q + 1), L, h)
    if kind == "matern":
        return refs.matern(q, float(np.exp(rng.normal() * .5)), float(np.exp(rng.normal() * .5)), h, 1)
    if kind == "drifted":  # generic linear SDE with a constant input
        F = np.diag(np.ones(q), 1)
        F[-1] += rng.normal(size=q + 1) * .7
        L = np.zeros((q + 1, 1))
        L[-1] = np.exp(rng.normal() * .5)
        return refs.lsde(F, rng.normal(size=q + 1), L, h)
    if kind == "padded":
        return pad(one(rng, ["ibm", "matern", "ioup"][int(rng.integers(3))], max(1, q - 1), h), q) if q > 1 else one(rng, "ibm-scaled", q, h)
    raise ValueError(kind)


def draw(rng, kind, q, h, d):
    if kind == "mixed":
        ks = ["ibm-scaled", "matern", "ioup", "drifted", "padded"]
        return stack_blocks([one(rng, ks[int(rng.integers(len(ks)))], q, h) for _ in range(d)])
    return stack_blocks([one(rng, kind, q, h)] * d) if kind != "padded" else stack_blocks([one(rng, kind, q, h) for _ in range(d)])


def draw_noise(rng, kind, d):
    if kind == "none":
        return None
    if kind == "zero":
        return np.zeros((d, d))
    if kind == "diag":
        return np.diag(np.exp(rng.normal(size=d) - 3))
    B = rng.normal(size=(d, d)) * .3
    return B @ B.T + .01 * np.eye(d)
