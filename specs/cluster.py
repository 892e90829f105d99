"""Decisions of a peak cluster, as a user drives it, and the rules they follow."""
import numpy as np
import oracle
from diffpy.srmise.modelcluster import ModelCluster
from diffpy.srmise.modelevaluators.base import ModelEvaluator
from diffpy.srmise.modelparts import ModelParts
from diffpy.srmise.peaks.base import Peaks
from diffpy.srmise.srmiseerrors import SrMiseFitError


class Criterion(ModelEvaluator):
    """Any criterion: quality and justification are unknown functions of the fit."""

    def __init__(self):
        ModelEvaluator.__init__(self, "criterion", True)

    def evaluate(self, fit, count_fixed=False, kshift=0):
        self.stat = oracle.quality(parameters(fit.model), background(fit), count_fixed, kshift)
        return self.stat

    def growth_justified(self, fit, k_prime):
        return oracle.growth(parameters(fit.model), background(fit), k_prime)


def parameters(model):
    return [[p.owner(), [x for x in p.pars]] for p in model]


def background(mc):
    return None if mc.baseline is None else [mc.baseline.owner(), [x for x in mc.baseline.pars]]


def state(mc):
    return [parameters(mc.model), background(mc)]


# -- stand-ins -------------------------------------------------------------------
def fitted(model, r, y, y_error, range=None, ntrials=0, cov=None, cov_format="default_output"):
    """An optimiser: free parameters become anything, then it may fail."""
    before = parameters(model)
    for k, p in enumerate(model):
        for j, f in enumerate(p.free):
            if f:
                p.pars[j] = oracle.fitted(k, j, before, r, y, y_error, range, ntrials)
    if oracle.fails(before, r, y, y_error, range, ntrials):
        raise SrMiseFitError()


def cleaned(mc):
    """Clean-up after a fit: may find the last peak useless."""
    if oracle.useless(parameters(mc.model)):
        del mc.model[-1]
    return 0


def settled(mc, justify=False, ntrials=0, fitbaseline=False, estimate=True, cov=None, cov_format="default_output"):
    """A whole fit of a cluster: rejected without effect, or accepted."""
    if mc.never_fit:
        return None
    mc.last_fit_size = mc.size
    before = state(mc)
    if oracle.rejected(before, justify, ntrials, fitbaseline, mc.y_data):
        return None
    for k, p in enumerate(mc.model):
        for j, f in enumerate(p.free):
            if f:
                p.pars[j] = oracle.settled(k, j, before, justify, ntrials, fitbaseline, mc.y_data)
    return mc.quality()


def matched(model, x, y):
    """Scaling: peaks become anything."""
    before = parameters(model)
    for k, p in enumerate(model):
        for j, f in enumerate(p.free):
            if f:
                p.pars[j] = oracle.matched(k, j, before, x, y)
    return oracle.scaled(before, x, y)


def ordered(model):
    """Peaks (at most two) by position."""
    if len(model) == 2 and model[1]["position"] < model[0]["position"]:
        return [model[1], model[0]]
    return [p for p in model]


# -- the real thing -----------------------------------------------------------------
def made(model, baseline, r, y, dy, cut, funcs):
    return ModelCluster(Peaks(model), baseline, r, y, dy, cut, Criterion, funcs)


def stat(q):
    return None if q is None else q.stat


def fit(model, baseline, r, y, dy, cut, funcs, justify, ntrials, fitbaseline):
    mc = made(model, baseline, r, y, dy, cut, funcs)
    q = mc.fit(justify=justify, ntrials=ntrials, fitbaseline=fitbaseline)
    return [stat(q)] + state(mc)


def contingent(model, baseline, r, y, dy, cut, funcs, last, minpoints, threshold):
    mc = made(model, baseline, r, y, dy, cut, funcs)
    mc.last_fit_size = last
    q = mc.contingent_fit(minpoints, threshold)
    return [stat(q), mc.last_fit_size] + state(mc)


def reduced(model, baseline, r, y, dy, cut, funcs, x, height):
    mc = made(model, baseline, r, y, dy, cut, funcs)
    q = mc.reduce_to(x, height)
    return [stat(q)] + state(mc)


# -- the rules ---------------------------------------------------------------------
def fit_rule(model, baseline, r, y, dy, cut, funcs, justify, ntrials, fitbaseline, background_free):
    mc = made(model, baseline, r, y, dy, cut, funcs)
    before = state(mc)
    kept = [None] + before
    if mc.never_fit:
        return kept
    old = oracle.quality(before[0], before[1], False, 0)
    both = fitbaseline and background_free
    if both:
        parts = ModelParts([p.copy() for p in model] + [baseline.copy()])
        data = y
    else:
        parts = ModelParts([p.copy() for p in model])
        data = y - (r * 0.0 if baseline is None else baseline.value(r))
    try:
        fitted(parts, r, data, dy, cut, ntrials)
    except SrMiseFitError:
        return kept
    peaks = [p for p in parts]
    under = before[1]
    if both:
        under = [baseline.owner(), [x for x in parts[-1].pars]]
        peaks = peaks[:-1]
    peaks = ordered(peaks)
    if oracle.useless(parameters(peaks)):
        peaks = peaks[:-1]
    new = oracle.quality(parameters(peaks), under, False, 0)
    if new < old:
        return kept
    if justify and len(peaks) == 1:
        if oracle.growth(parameters(peaks), under, min([f.npars for f in funcs])):
            return kept
    return [new, parameters(peaks), under]


def contingent_rule(model, baseline, r, y, dy, cut, funcs, last, minpoints, threshold):
    mc = made(model, baseline, r, y, dy, cut, funcs)
    kept = [None, last] + state(mc)
    if mc.never_fit:
        return kept
    size = len(r[cut])
    if last > 0:
        if size / last < threshold:
            return kept
    elif size < minpoints:
        return kept
    q = mc.fit(justify=True)
    return [stat(q), mc.last_fit_size] + state(mc)


def reduced_rule(model, baseline, r, y, dy, cut, funcs, x, height):
    mc = made(model, baseline, r, y, dy, cut, funcs)
    kept = [None] + state(mc)
    total = 0.0
    for p in model:
        total = total + p.value(x)
    if total < height:
        return kept
    matched(mc.model, x, height - (x * 0.0 if baseline is None else baseline.value(x)))
    q = mc.fit()
    if q is None or oracle.growth(parameters(mc.model), background(mc), min([f.npars for f in funcs])):
        return kept
    return [q.stat] + state(mc)
