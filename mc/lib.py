"""Shared oracles and deterministic alphabets (no randomness is used anywhere)."""
import itertools
import math

import numpy as np

_PR = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47]


def generic(shape, lo=-1.0, hi=1.0, salt=0):
    """Deterministic 'generic point': Weyl sequence of an irrational, mapped to (lo, hi)."""
    n = int(np.prod(shape)) if len(tuple(shape)) else 1
    a = math.sqrt(_PR[salt % len(_PR)]) + 0.1 * (salt // len(_PR))
    k = np.arange(1, n + 1, dtype=np.float64) + 3 * salt
    v = np.mod(k * a, 1.0)
    v = 0.02 + 0.96 * v
    return (lo + (hi - lo) * v).reshape(shape)


def jac_logdet(f, x):
    """log|det df/dx| for a single event (any shape) by forward-mode AD of the map itself."""
    import jax
    import jax.numpy as jnp

    x = jnp.asarray(x)
    n = x.size
    J = jax.jacfwd(lambda v: f(v.reshape(x.shape)).reshape(-1))(x.reshape(-1))
    return jnp.linalg.slogdet(J.reshape(n, n))[1]


def fd_jac(f, x, h=1e-5):
    """Central finite-difference Jacobian (independent of AD)."""
    x = np.asarray(x, dtype=np.float64)
    flat = x.reshape(-1)
    cols = []
    for i in range(flat.size):
        e = np.zeros_like(flat)
        e[i] = h
        a = np.asarray(f((flat + e).reshape(x.shape)), dtype=np.float64).reshape(-1)
        b = np.asarray(f((flat - e).reshape(x.shape)), dtype=np.float64).reshape(-1)
        c = np.asarray(f((flat + 2 * e).reshape(x.shape)), dtype=np.float64).reshape(-1)
        d = np.asarray(f((flat - 2 * e).reshape(x.shape)), dtype=np.float64).reshape(-1)
        cols.append((8 * (a - b) - (c - d)) / (12 * h))
    return np.stack(cols, axis=-1)


def shapes_broadcasting_to(target):
    """Every shape that numpy-broadcasts to ``target`` (each dim kept or 1, leading dims dropped)."""
    out = []
    t = tuple(target)
    for drop in range(len(t) + 1):
        rest = t[drop:]
        for mask in itertools.product([0, 1], repeat=len(rest)):
            s = tuple(1 if m else d for m, d in zip(mask, rest))
            if s not in out:
                out.append(s)
    return out


def prod(s):
    p = 1
    for v in s:
        p *= v
    return p


def compositions(n, parts):
    if parts == 1:
        yield (n,)
        return
    for i in range(n + 1):
        for r in compositions(n - i, parts - 1):
            yield (i,) + r
