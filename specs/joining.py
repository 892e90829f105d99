"""Joining of adjacent clusters, and the rule."""
import numpy as np
import oracle
from diffpy.srmise.modelcluster import ModelCluster
from diffpy.srmise.modelevaluators.base import ModelEvaluator
from diffpy.srmise.peaks.base import Peaks
from region import Criterion, Other, one, parameters, background


def matched(model, x, y):
    """Scaling: peaks become anything."""
    before = parameters(model)
    for k, p in enumerate(model):
        for j, f in enumerate(p.free):
            if f:
                p.pars[j] = oracle.matched(k, j, before, x, y)
    return oracle.scaled(before, x, y)


def points(v):
    return [x for x in v]


def shown(mc):
    return [parameters(mc.model), background(mc), points(mc.r_cluster), points(mc.y_cluster), points(mc.error_cluster), mc.size, points(mc.peak_funcs), mc.quality().stat, mc.quality().method]


def joined(model, model2, baseline, baseline2, r, y, dy, r2, y2, dy2, cut, cut2, funcs, funcs2, swap, other):
    m = ModelCluster(Peaks(model), baseline, r, y, dy, cut, Criterion, funcs)
    m2 = ModelCluster(Peaks(model2), baseline2, r2, y2, dy2, cut2, Other if other else Criterion, funcs2)
    try:
        j = ModelCluster.join_adjacent(m2, m) if swap else ModelCluster.join_adjacent(m, m2)
    except ValueError:
        return ["refused", shown(m), shown(m2)]
    out = shown(j)
    for p in j.model:
        p.pars[0] = 17.5
        p.free[0] = False
    j.peak_funcs.append(None)
    return [out, shown(m), shown(m2)]


def shows(model, baseline, r, y, dy, lo, hi, funcs, other):
    m = parameters(model)
    b = None if baseline is None else one(baseline)
    q = oracle.other(m, b, False, 0) if other else oracle.quality(m, b, False, 0)
    return [m, b, points(r[lo:hi]), points(y[lo:hi]), points(dy[lo:hi]), hi - lo, points(funcs), q, "other" if other else "criterion"]


def joined_rule(model, model2, baseline, baseline2, r, y, dy, r2, y2, dy2, lo, hi, lo2, hi2, funcs, funcs2, other, order, both, refused):
    first = shows(model, baseline, r, y, dy, lo, hi, funcs, False)
    second = shows(model2, baseline2, r2, y2, dy2, lo2, hi2, funcs2, other)
    if refused:
        return ["refused", first, second]
    peaks = [p.copy() for p in model] + [p.copy() for p in model2]
    peaks = [peaks[k] for k in order]
    left = min(lo, lo2)
    right = max(hi, hi2)
    at = max(lo, lo2)
    if len(model) > 0 and len(model2) > 0:
        matched(peaks, 0.5 * (r[at - 1] + r[at]), 0.5 * (y[at - 1] + y[at]))
    return [shows(peaks, baseline, r, y, dy, left, right, both, False), first, second]
