"""What fitting a list of model parts minimises."""
import numpy as np


def packed(pars, free, values):
    """Parameters with the free ones replaced, in order."""
    out = []
    k = 0
    for j in range(len(pars)):
        if free[j]:
            out.append(values[k])
            k += 1
        else:
            out.append(pars[j])
    return out


def residual(curves, r, y, err, rng):
    total = 0
    for c in curves:
        total = total + c
    if rng is None:
        return (y - total) / err
    return (y[rng] - total[rng]) / err[rng]


def row(d, err, rng):
    if rng is None:
        return -d / err
    return -d[rng] / err[rng]
