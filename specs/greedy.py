"""Augmenting and pruning of models, and the rules."""
import numpy as np
import oracle
from diffpy.srmise.modelcluster import ModelCluster
from diffpy.srmise.modelevaluators.base import ModelEvaluator
from diffpy.srmise.peaks.base import PeakFunction, Peaks
from region import background, one, parameters


class Curve(PeakFunction):
    """Any function: has some value at each point."""

    def value(self, p, r, rng=None):
        return drawn(p, r)


def drawn(p, r):
    return np.array([oracle.at(p.owner(), [v for v in p.pars], x) for x in r])


def points(v):
    return [x for x in v]


def code(model):
    """Which peaks are in a model: their positions are 1, 2, 4, 8, ..."""
    n = 0
    for p in model:
        n = n + p.pars[0]
    return n


def graded(model, kshift, y):
    ordered = sorted([p for p in model], key=lambda p: p.pars[0])
    return oracle.quality([[p.pars[0], [v for v in p.pars]] for p in ordered], kshift, points(y))


class Higher(ModelEvaluator):
    def __init__(self):
        ModelEvaluator.__init__(self, "higher", True)

    def evaluate(self, fit, count_fixed=False, kshift=0):
        self.stat = graded(fit.model, kshift, fit.y_cluster)
        return self.stat


class Lower(ModelEvaluator):
    def __init__(self):
        ModelEvaluator.__init__(self, "lower", False)

    def evaluate(self, fit, count_fixed=False, kshift=0):
        self.stat = graded(fit.model, kshift, fit.y_cluster)
        return self.stat


def adjusted(model, y, plan):
    """A fit: free parameters are adjusted or not, and a peak may be dropped."""
    orig = [p.copy() for p in model]
    n = code(model)
    if n == 0:
        return model
    for p in model:
        for j, f in enumerate(p.free):
            if f:
                p.pars[j] = oracle.fitted(p.pars[0], j, n, points(y))
    if n in plan.rejected:
        return orig
    model = sorted([p for p in model], key=lambda p: p.pars[0])
    return [p for p in model if (n, p.pars[0]) not in plan.dropped]


def fitted(self, justify=False, ntrials=0, fitbaseline=False, estimate=True, cov=None, cov_format="default_output"):
    if len(self.model) == 0:
        if estimate:
            raise RuntimeError("a peak would be invented")
        return None
    if justify or fitbaseline:
        raise RuntimeError("another fit")
    was = code(self.model)
    after = adjusted(self.model, self.y_cluster - self.valuebl(), self.peak_funcs[0])
    if was in self.peak_funcs[0].rejected:
        self.model = Peaks(after)
        return None
    self.model[:] = after
    return self.quality()


def silent(self, *args, **kwds):
    return None


def shown(mc):
    return [parameters(mc.model), background(mc), points(mc.r_cluster), points(mc.y_cluster), points(mc.error_cluster), mc.size, mc.quality().method]


# -- augmenting ----------------------------------------------------------------------
def augmented(model, other, baseline, r, y, dy, funcs, higher):
    kind = Higher if higher else Lower
    m = ModelCluster(Peaks(model), baseline, r, y, dy, slice(0, len(r)), kind, funcs)
    s = ModelCluster(Peaks(other), baseline, r, y, dy, slice(0, len(r)), kind, funcs)
    m.augment(s)
    out = shown(m)
    for p in m.model:
        p.pars[0] = 17
        p.free[0] = True
    return [out, shown(s)]


def view(model, baseline, r, y, dy, higher):
    return [parameters(model), None if baseline is None else one(baseline), points(r), points(y), points(dy), len(r), "higher" if higher else "lower"]


def flat(baseline, r, y):
    return y - (r * 0.0 if baseline is None else drawn(baseline, r))


def added(model, other, baseline, r, y, funcs, path):
    """The model after some peaks were added, each with a fit."""
    best = [p.copy() for p in model]
    for k in path:
        best = adjusted([p.copy() for p in best] + [other[k].copy()], flat(baseline, r, y), funcs[0])
    return best


def added_grade(model, other, baseline, r, y, funcs, path):
    return graded(added(model, other, baseline, r, y, funcs, path), 0, y)


def augmented_rule(model, other, baseline, r, y, dy, funcs, higher, path):
    best = added(model, other, baseline, r, y, funcs, path)
    best = sorted([p for p in best], key=lambda p: p.pars[0])
    best = adjusted(best, flat(baseline, r, y), funcs[0])
    return [view(best, baseline, r, y, dy, higher), view(other, baseline, r, y, dy, higher)]


# -- pruning -------------------------------------------------------------------------
def pruned(model, baseline, r, y, dy, funcs, higher):
    m = ModelCluster(Peaks(model), baseline, r, y, dy, slice(0, len(r)), Higher if higher else Lower, funcs)
    m.prune()
    return shown(m)


def without(best, baseline, r, y, funcs, k):
    """(peaks near the k-th without it, as fitted; data without the others; their free parameters)."""
    rest = flat(baseline, r, y)
    far = 0
    near = []
    for j, p in enumerate(best):
        if j < k - 3 or j > k + 3:
            rest = rest - drawn(p, r)
            for f in p.free:
                if f:
                    far = far + 1
        elif j != k:
            near.append(p.copy())
    return adjusted(near, rest, funcs[0]), rest, far


def left(model, baseline, r, y, funcs, path):
    """The model after some peaks were removed, each with its fits."""
    best = [p.copy() for p in model]
    for k in path:
        near = without(best, baseline, r, y, funcs, k)[0]
        best = [p.copy() for p in best[:max(k - 3, 0)]] + near + [p.copy() for p in best[k + 4:]]
        best = adjusted(best, flat(baseline, r, y), funcs[0])
    return best


def left_grade(model, baseline, r, y, funcs, path):
    if len(path) == 0:
        return graded(model, 0, y)
    return graded(left(model, baseline, r, y, funcs, path), 0, flat(baseline, r, y))


def without_grade(model, baseline, r, y, funcs, path, k):
    near, rest, far = without(left(model, baseline, r, y, funcs, path), baseline, r, y, funcs, k)
    return graded(near, far, rest)


def size_left(model, baseline, r, y, funcs, path):
    return [p.pars[0] for p in left(model, baseline, r, y, funcs, path)]


def pruned_rule(model, baseline, r, y, dy, funcs, higher, path):
    return view(left(model, baseline, r, y, funcs, path), baseline, r, y, dy, higher)
