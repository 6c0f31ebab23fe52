"""Scripted randomness: the environment's random draws become inputs that the explorer controls."""
import contextlib

import numpy as np


class ScriptedState(np.random.RandomState):
    """NumPy random state of which the standard normal draws are scripted. Draws beyond the end of
    the script are zero."""

    def __init__(self, script=()):
        np.random.RandomState.__init__(self, 0)
        self.script = list(script)
        self.consumed = 0

    def _next(self, shape):
        n = int(np.prod(shape)) if len(shape) else 1
        out = np.zeros(n)
        for i in range(n):
            j = self.consumed + i
            if j < len(self.script):
                out[i] = self.script[j]
        self.consumed += n
        return out.reshape(shape) if len(shape) else float(out[0])

    def randn(self, *shape):
        return self._next(shape)

    def standard_normal(self, size=None):
        return self._next(_shape(size))

    def normal(self, loc=0.0, scale=1.0, size=None):
        return loc + scale * self._next(_shape(size))


def _shape(size):
    if size is None:
        return ()
    if np.ndim(size) == 0:
        return (int(size),)
    return tuple(size)


class Tape:
    def __init__(self, script):
        self.state = ScriptedState(script)

    @property
    def consumed(self):
        return self.state.consumed


@contextlib.contextmanager
def scripted_jax(script=()):
    """Script the standard normal draws of JAX."""
    import jax
    import jax.numpy as jnp

    tape = Tape(script)
    old = jax.random.normal

    def normal(key, shape=(), dtype=float):
        return jnp.asarray(tape.state._next(tuple(shape)), dtype=dtype)

    jax.random.normal = normal
    try:
        yield tape
    finally:
        jax.random.normal = old


@contextlib.contextmanager
def scripted(script=()):
    """Script the standard normal draws of JAX and of the global random state of NumPy."""
    with scripted_jax(script) as tape:
        old = np.random.random
        np.random.random = tape.state.random  # LAB finds the global random state by this method.
        try:
            yield tape
        finally:
            np.random.random = old


def linear_map(f, max_k=200):
    """Identify the affine map from standard normal draws to the output of `f`.

    `f(script)` returns (flattened output, number of draws consumed). Returns (offset, matrix). The
    map is established from all basis vectors, not from a sample.
    """
    f0, k = f([])
    f0 = np.asarray(f0, dtype=float)
    if not 0 < k <= max_k:
        raise RuntimeError(f"{k} standard normal draws were consumed")
    cols = []
    for i in range(k):
        e = np.zeros(k)
        e[i] = 1.0
        fi, _ = f(list(e))
        cols.append(np.asarray(fi, dtype=float) - f0)
    return f0, np.stack(cols, axis=1)


def affine(f, f0, A):
    """Check that the map is indeed affine: at all sums of two basis vectors and at a scaled sum."""
    k = A.shape[1]
    worst = 0.0
    for i in range(k):
        for s, j in ((-2.0, (i + 1) % k), (1.0, (i + 3) % k)):
            e = np.zeros(k)
            e[i] += 1.5
            e[j] += s
            fi, _ = f(list(e))
            worst = max(worst, float(np.max(np.abs(np.asarray(fi) - f0 - A @ e))))
    return worst
