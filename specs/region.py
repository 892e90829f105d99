"""What a cluster shows of the data and of its model, and the rules."""
import numpy as np
import oracle
from diffpy.srmise.modelcluster import ModelCluster
from diffpy.srmise.modelevaluators.base import ModelEvaluator
from diffpy.srmise.peaks.base import PeakFunction, Peaks
from diffpy.srmise.srmiseerrors import SrMiseEstimationError


class AnyFunction(PeakFunction):
    """Any function: has some curve and some estimate."""

    def value(self, p, r, rng=None):
        pars = [v for v in p.pars]
        if rng is None:
            return oracle.curve(self, pars, r)
        return oracle.partial(self, pars, r, rng)

    def transform_parameters(self, pars, in_format, out_format):
        return np.array([oracle.converted(self, k, [v for v in pars], in_format, out_format) for k in range(2)])

    def estimate_parameters(self, r, y):
        if oracle.inestimable(self, r, y):
            raise SrMiseEstimationError("no")
        return [oracle.estimate(self, k, r, y) for k in range(2)]


class Criterion(ModelEvaluator):
    def __init__(self):
        ModelEvaluator.__init__(self, "criterion", True)

    def evaluate(self, fit, count_fixed=False, kshift=0):
        self.stat = oracle.quality(parameters(fit.model), background(fit), count_fixed, kshift)
        return self.stat


class Other(ModelEvaluator):
    def __init__(self):
        ModelEvaluator.__init__(self, "other", False)

    def evaluate(self, fit, count_fixed=False, kshift=0):
        self.stat = oracle.other(parameters(fit.model), background(fit), count_fixed, kshift)
        return self.stat


def one(part):
    return [part.owner(), [v for v in part.pars], [f for f in part.free], part.removable]


def parameters(model):
    return [one(p) for p in model]


def background(mc):
    return None if mc.baseline is None else one(mc.baseline)


def view(mc):
    return [mc.r_cluster, mc.y_cluster, mc.error_cluster, mc.size, mc.never_fit]


def made(model, baseline, r, y, dy, cut, funcs):
    return ModelCluster(Peaks(model), baseline, r, y, dy, cut, Criterion, funcs)


def ground(baseline, x):
    return x * 0.0 if baseline is None else oracle.curve(baseline.owner(), [v for v in baseline.pars], x)


def drawn(model, x):
    out = 0.0
    for p in model:
        out = out + oracle.curve(p.owner(), [v for v in p.pars], x)
    return out


# -- the part of the data ---------------------------------------------------------
def region(model, baseline, r, y, dy, funcs, lo, hi):
    mc = made(model, baseline, r, y, dy, slice(lo, hi), funcs)
    return view(mc)


def region_rule(model, baseline, r, y, dy, funcs, lo, hi):
    return [r[lo:hi], y[lo:hi], dy[lo:hi], len(r[lo:hi]), max((y - ground(baseline, r))[lo:hi] - dy[lo:hi]) < 0]


def whole(model, baseline, r, y, dy, funcs):
    mc = made(model, baseline, r, y, dy, None, funcs)
    return [mc.r_cluster, mc.y_cluster, mc.error_cluster, mc.size]


def whole_rule(model, baseline, r, y, dy, funcs):
    n = len(r)
    return [r[0:n], y[0:n], dy[0:n], len(r[0:n])]


def moved(model, baseline, r, y, dy, funcs, lo, hi, lo2, hi2):
    mc = made(model, baseline, r, y, dy, slice(lo, hi), funcs)
    mc.change_slice(slice(lo2, hi2))
    return view(mc)


def moved_rule(model, baseline, r, y, dy, funcs, lo, hi, lo2, hi2):
    above = y - ground(baseline, r)
    never = max(above[lo:hi] - dy[lo:hi]) < 0
    if never and lo2 < lo:
        never = max(above[lo2:lo] - dy[lo2:lo]) < 0
    if never and hi < hi2:
        never = max(above[hi:hi2] - dy[hi:hi2]) < 0
    return [r[lo2:hi2], y[lo2:hi2], dy[lo2:hi2], len(r[lo2:hi2]), never]


# -- its curve -----------------------------------------------------------------------
def curve(model, baseline, r, y, dy, funcs, lo, hi, x):
    mc = made(model, baseline, r, y, dy, slice(lo, hi), funcs)
    return [mc.value(), mc.value(x), mc.valuebl(), mc.valuebl(x), mc.residual(), mc.plottable_residual(), mc.plottable(True)]


def curve_rule(model, baseline, r, y, dy, funcs, lo, hi, x):
    c = r[lo:hi]
    v = ground(baseline, c) + drawn(model, c)
    return [v, ground(baseline, x) + drawn(model, x), ground(baseline, c), ground(baseline, x), y[lo:hi] - v, [c, y[lo:hi] - v], [c, y[lo:hi], c, v]]


def plotted(model, baseline, r, y, dy, funcs, lo, hi):
    mc = made(model, baseline, r, y, dy, slice(lo, hi), funcs)
    return mc.plottable()


def plotted_rule(model, baseline, r, y, dy, funcs, lo, hi):
    c = r[lo:hi]
    out = [c, y[lo:hi]]
    for p in model:
        out.append(c)
        out.append(ground(baseline, c) + drawn([p], c))
    return out


# -- its quality and size -----------------------------------------------------------
def judged(model, baseline, r, y, dy, funcs, lo, hi, shift, fixed):
    mc = made(model, baseline, r, y, dy, slice(lo, hi), funcs)
    return [mc.quality().stat, mc.quality(kshift=shift).stat, mc.quality(Other, count_fixed=fixed).stat, mc.quality(count_fixed=fixed, kshift=shift).stat,
            mc.quality().method, mc.quality(Other).method]


def judged_rule(model, baseline, r, y, dy, funcs, lo, hi, shift, fixed):
    m = parameters(model)
    b = None if baseline is None else one(baseline)
    return [oracle.quality(m, b, False, 0), oracle.quality(m, b, False, shift), oracle.other(m, b, fixed, 0), oracle.quality(m, b, fixed, shift), "criterion", "other"]


def counted(model, baseline, r, y, dy, funcs, lo, hi):
    mc = made(model, baseline, r, y, dy, slice(lo, hi), funcs)
    return [mc.npars(), mc.npars(count_fixed=False), mc.npars(count_baseline=False), mc.npars(count_baseline=False, count_fixed=False)]


def counted_rule(model, baseline, r, y, dy, funcs, lo, hi, counts):
    return counts


# -- adding peaks ----------------------------------------------------------------------
def external(model, baseline, r, y, dy, funcs, lo, hi, more):
    y = np.array(y)
    mc = made(model, baseline, r, y, dy, slice(lo, hi), funcs)
    mc.addexternalpeaks(Peaks(more))
    return [mc.y_data, mc.y_cluster, y, parameters(mc.model), mc.r_cluster, mc.size]


def external_rule(model, baseline, r, y, dy, funcs, lo, hi, more):
    new = y + drawn(more, r)
    peaks = [p for p in model] + [p for p in more]
    if len(peaks) == 2 and peaks[1]["position"] < peaks[0]["position"]:
        peaks = [peaks[1], peaks[0]]
    return [new, new[lo:hi], y, parameters(peaks), r[lo:hi], len(r[lo:hi])]


def estimated(baseline, r, y, dy, funcs, lo, hi):
    mc = made([], baseline, r, y, dy, slice(lo, hi), funcs)
    try:
        done = mc.estimatepeak()
    except SrMiseEstimationError:
        return ["refused", parameters(mc.model)]
    return [done, parameters(mc.model)]


def estimated_rule(baseline, r, y, dy, funcs, lo, hi):
    f = funcs[0]
    c = r[lo:hi]
    above = y[lo:hi] - ground(baseline, c)
    if oracle.inestimable(f, c, above):
        return ["refused", []]
    p = [oracle.estimate(f, k, c, above) for k in range(2)]
    return [True, [[f, [oracle.converted(f, k, p, "internal", "internal") for k in range(2)], [True, True], True]]]


# -- copies ---------------------------------------------------------------------------------
def copied(model, baseline, r, y, dy, funcs, lo, hi, v, w):
    mc = made(model, baseline, r, y, dy, slice(lo, hi), funcs)
    q = mc.copy()
    same = [parameters(q.model), background(q), view(q), q.r_data, q.y_data, q.y_error, q.quality().stat, [f for f in q.peak_funcs]]
    for p in q.model:
        p.pars[0] = v
        p.free[0] = False
    if q.baseline is not None:
        q.baseline.pars[0] = v
    q.change_slice(slice(w, hi))
    q.peak_funcs.append(v)
    q.replacepeaks([], slice(0, 1))
    return [same, parameters(mc.model), background(mc), view(mc), [f for f in mc.peak_funcs]]


def copied_rule(model, baseline, r, y, dy, funcs, lo, hi, v, w):
    mc = made(model, baseline, r, y, dy, slice(lo, hi), funcs)
    p = parameters(model)
    b = None if baseline is None else one(baseline)
    f = [f for f in funcs]
    return [[p, b, view(mc), r, y, dy, oracle.quality(p, b, False, 0), f], p, b, view(mc), f]


# -- clean-up --------------------------------------------------------------------------------
def cleaned(model, baseline, r, y, dy, funcs, lo, hi):
    mc = made(model, baseline, r, y, dy, slice(lo, hi), funcs)
    n = mc.cleanfit()
    return [n, parameters(mc.model)]


def cleaned_rule(model, baseline, r, y, dy, funcs, lo, hi):
    c = r[lo:hi]
    kept = []
    gone = 0
    for p in model:
        outside = p["position"] < c[0] or p["position"] >= c[-1]
        useless = outside and p.removable and max(drawn([p], c) - dy[lo:hi]) < 0
        if useless or np.isnan(p.pars).any():
            gone = gone + 1
        else:
            kept = kept + [p]
    return [gone, parameters(kept)]
