"""The same values in another memory layout."""
import numpy as np


def lay(x, kind):
    """x with its values unchanged: 'C' row-major, 'F' column-major, 'rev' negative strides, 'step' every second
    element of a larger buffer along the last dimension, 'mid' along the first"""
    if kind in (None, "C"):
        return x
    if kind == "F":
        return x.T.copy().T
    if kind == "rev":
        r = (slice(None, None, -1),) * x.ndim
        return x[r].copy()[r]
    ax = -1 if kind == "step" else 0
    y = np.repeat(x, 2, axis=ax)
    return y[..., ::2] if ax == -1 else y[::2]


KINDS = ("C", "F", "rev", "step")


def any_lay(E, x, name):
    return lay(x, KINDS[E.concrete_int(E.int(f"layout_{name}", 0, len(KINDS) - 1))])


COMBOS = (("F", "F", "F"), ("F", "C", "step"), ("rev", "step", "C"), ("step", "rev", "F"))


def flat3(E, S, T, P, which):
    """one cast as 1D arrays"""
    return tuple(lay(x.reshape(-1), k) for x, k in zip((S, T, P), combo(E, which)))


def combo(E, which="any"):
    """layouts of S, T and P"""
    if which is None:
        return ("C",) * 3
    return COMBOS[E.concrete_int(E.int("layout", 0, len(COMBOS) - 1))] if which == "any" else COMBOS[which]
