"""What may happen to the peaks of a list, and the rules."""
import numpy as np
import oracle
from diffpy.srmise.modelcluster import ModelCluster
from diffpy.srmise.peaks.base import PeakFunction, Peaks
from diffpy.srmise.srmiseerrors import SrMiseScalingError


class AnyPeak(PeakFunction):
    """Any peak function: has some curve; scales to something, or cannot."""

    def value(self, pars, x, rng=None):
        return oracle.curve(self, [v for v in pars], x)

    def scale_at(self, pars, x, scale):
        old = [v for v in pars]
        if oracle.unscalable(self, old, x, scale):
            raise SrMiseScalingError("no")
        return np.array([oracle.scaled(self, k, old, x, scale) for k in range(len(old))])


def parameters(model):
    return [[p.owner(), [v for v in p.pars], [f for f in p.free], p.removable] for p in model]


# -- one peak -----------------------------------------------------------------------
def scaled(p, x, scale):
    done = p.scale_at(x, scale)
    return [done, [v for v in p.pars], [f for f in p.free]]


def scaled_rule(p, x, scale):
    old = [v for v in p.pars]
    free = [f for f in p.free]
    kept = [False, old, free]
    if not any(free) or oracle.unscalable(p.owner(), old, x, scale):
        return kept
    new = [oracle.scaled(p.owner(), k, old, x, scale) for k in range(len(old))]
    for k in range(len(old)):
        if not free[k] and new[k] != old[k]:
            return kept
    return [True, new, free]


# -- a list --------------------------------------------------------------------------
def one(p, x, scale):
    """Scaling one peak: it refuses, or becomes something."""
    old = [v for v in p.pars]
    if oracle.unscalable(p.owner(), old, x, scale):
        return False
    p.pars = np.array([oracle.scaled(p.owner(), k, old, x, scale) for k in range(len(old))])
    return True


def failing(p, x, scale):
    """Scaling one peak, or any failure."""
    if oracle.fails(p.owner(), [v for v in p.pars], x, scale):
        p.pars = np.array([oracle.broken(p.owner(), k) for k in range(len(p.pars))])
        raise RuntimeError("no")
    return one(p, x, scale)


def matched(model, x, y):
    done = model.match_at(x, y)
    return [done] + parameters(model)


def failed(model, x, y):
    done = model.match_at(x, y)
    return [done] + parameters(model)


def failed_rule(model, x, y):
    """Whatever fails, the peaks are as they were."""
    before = parameters(model)
    total = 0.0
    for p in model:
        total = total + p.value(x)
    if total == 0:
        return [False] + before
    p = model[0]
    if oracle.fails(p.owner(), [v for v in p.pars], x, y / total):
        return [False] + before
    return [one(p, x, y / total)] + parameters(model)


def matched_rule(model, x, y):
    before = parameters(model)
    heights = [p.value(x) for p in model]
    total = 0.0
    for h in heights:
        total = total + h
    if total == 0:
        return [False] + before
    first = [p.copy() for p in model]
    done = [one(p, x, y / total) for p in first]
    if all(done):
        return [any(done)] + parameters(first)
    fixed = 0.0
    for p, d in zip(model, done):
        if not d:
            fixed = fixed + p.value(x)
    if fixed >= y or fixed >= total:
        return [any(done)] + parameters(first)
    second = [p.copy() for p in model]
    again = False
    for p, d in zip(second, done):
        if d:
            if one(p, x, (y - fixed) / (total - fixed)):
                again = True
    return [again] + parameters(second)


def two(parts, key):
    if len(parts) == 2 and parts[1][key] < parts[0][key]:
        return [parts[1], parts[0]]
    return [p for p in parts]


def three(parts, key):
    """Up to three peaks by a parameter."""
    if len(parts) < 3:
        return two(parts, key)
    a, b, c = parts
    if b[key] < a[key]:
        a, b = b, a
    if c[key] < a[key]:
        return [c, a, b]
    if c[key] < b[key]:
        return [a, c, b]
    return [a, b, c]


def sorting(model, key, reverse):
    model.sort(reverse, key)
    return parameters(model)


def sorting_rule(model, key, reverse):
    out = three(model, key)
    if reverse:
        out = [out[len(out) - 1 - k] for k in range(len(out))]
    return parameters(out)


def indices(model, key):
    return parameters([model[k] for k in model.argsort(key)])


def indices_rule(model, key):
    return parameters(three(model, key))


def replaced(mc, new, where):
    mc.replacepeaks(new, where)
    return parameters(mc.model)


def deleted(mc, k):
    mc.deletepeak(k)
    return parameters(mc.model)


def replaced_rule(mc, new, where, fixed, kept):
    if fixed:
        raise ValueError("fixed")
    return parameters(three([mc.model[k] for k in kept] + [p for p in new], "position"))
