"""Data and settings of an extraction as a user gives them, and what must be in force then."""
import numpy as np
import oracle
from diffpy.srmise.baselines.base import BaselineFunction
from diffpy.srmise.baselines.polynomial import Polynomial
from diffpy.srmise.modelevaluators.aic import AIC
from diffpy.srmise.modelevaluators.aicc import AICc
from diffpy.srmise.pdfpeakextraction import PDFPeakExtraction
from diffpy.srmise.peakextraction import PeakExtraction
from diffpy.srmise.peaks.base import Peak, Peaks
from diffpy.srmise.peaks.gaussianoverr import GaussianOverR
from diffpy.srmise.srmiseerrors import SrMiseEstimationError, SrMiseQmaxError



def names(pdf):
    plain = ["cres", "effective_dy", "pf", "rng", "baseline", "error_method", "initial_peaks"]
    return plain + ["qmax", "nyquist", "scale", "supersample", "dg"] if pdf else plain


class AnyFunction(BaselineFunction):
    """Any function: has some curve; its parameters can sometimes be estimated."""

    def value(self, p, r, rng=None):
        return oracle.curve(self, [v for v in p.pars], r)

    def transform_parameters(self, pars, in_format, out_format):
        return np.array([v for v in pars])

    def estimate_parameters(self, r, y):
        if oracle.unknown(self, r, y):
            raise NotImplementedError()
        if oracle.inestimable(self, r, y):
            raise SrMiseEstimationError("no")
        return [oracle.estimate(self, k, r, y) for k in range(self.npars)]


# -- stand-ins ---------------------------------------------------------------------
def found(r, y, showgraphs=False):
    """Looking for qmax in the data: finds one or fails."""
    if oracle.hopeless([v for v in r], [v for v in y]):
        raise ValueError()
    return (oracle.qmax([v for v in r], [v for v in y]), 0.0)


# -- what is in force --------------------------------------------------------------
def seq(a):
    return None if a is None else [v for v in a]


def function(f):
    return [f.__class__, f.maxwidth] if isinstance(f, GaussianOverR) else f


def part(p):
    if p is None:
        return None
    o = p.owner()
    if isinstance(o, Polynomial):
        return [o.__class__, o.degree, seq(p.pars)]
    return [o, seq(p.pars), seq(p.free)]


def facts(e, pdf):
    out = [e.cres, seq(e.effective_dy), None if e.pf is None else [function(f) for f in e.pf], seq(e.rng), part(e.baseline) if not hasattr(e.baseline, "estimate_parameters") else e.baseline,
           e.error_method, None if e.initial_peaks is None else [part(p) for p in e.initial_peaks], seq(e.x), seq(e.y), seq(e.dx), seq(e.dy)]
    if pdf:
        out = out + [e.qmax, e.nyquist, e.scale, e.supersample, e.qmax_fromdata, e.qmax_reportedbypdf]
    return out


def made(pdf, x, y, dx, dy, reported):
    e = PDFPeakExtraction() if pdf else PeakExtraction()
    e.setdata(x, y, dx, dy)
    if pdf:
        e.qmax_reportedbypdf = reported
    return e


def data(pdf, x, y, dx, dy):
    e = PDFPeakExtraction() if pdf else PeakExtraction()
    try:
        e.setdata(x, y, dx, dy)
    except ValueError:
        return ["refused"] + facts(e, pdf)
    return facts(e, pdf)


def data_rule(pdf, x, y, dx, dy):
    e = PDFPeakExtraction() if pdf else PeakExtraction()
    if len(x) != len(y) or dx is not None and len(x) != len(dx) or dy is not None and len(x) != len(dy):
        return ["refused"] + facts(e, pdf)
    e.x = np.array(x)
    e.y = np.array(y)
    e.dx = np.array([0.0 for v in x] if dx is None else dx)
    e.dy = np.array([0.0 for v in x] if dy is None else dy)
    if pdf and not oracle.hopeless(x, y):
        e.qmax_fromdata = oracle.qmax(x, y)
    return facts(e, pdf)


def settings(pdf, x, y, dx, dy, reported, first, then):
    e = made(pdf, x, y, dx, dy, reported)
    e.setvars(**first)
    try:
        e.setvars(**then)
    except ValueError:
        return ["refused"] + facts(e, pdf)
    except SrMiseQmaxError:
        return ["no qmax"] + facts(e, pdf)
    return facts(e, pdf)


def settings_rule(pdf, x, y, dx, dy, reported, first, then):
    e = made(pdf, x, y, dx, dy, reported)
    for k in first:
        setattr(e, named(k), first[k])
    complete(e, pdf, [])
    for k in then:
        if k not in names(pdf):
            return ["refused"] + facts(e, pdf)
    if "dg" in then and "effective_dy" in then:
        return ["refused"] + facts(e, pdf)
    if "supersample" in then and then["supersample"] is not None and then["supersample"] < 1:
        return ["refused"] + facts(e, pdf)
    for k in then:
        if k == "qmax" and then[k] == "automatic":
            if e.qmax_fromdata is None:
                return ["no qmax"] + facts(e, pdf)
    for k in then:
        setattr(e, named(k), e.qmax_fromdata if k == "qmax" and then[k] == "automatic" else then[k])
    complete(e, pdf, [])
    return facts(e, pdf)


def load(pdf, x, y, dx, dy, reported, first):
    e = made(True, x, y, dx, dy, reported)
    e.setvars(**first)
    e.loadpdf(pdf)
    return facts(e, True) + [e.extracted]


def load_rule(pdf, x, y, dx, dy, reported, first):
    e = made(True, pdf.robs, pdf.Gobs, pdf.drobs, pdf.dGobs, pdf.qmax)
    return facts(e, True) + [None]


def named(k):
    return "effective_dy" if k == "dg" else k


def defaults(pdf, x, y, dx, dy, reported, first, which):
    e = made(pdf, x, y, dx, dy, reported)
    e.setvars(**first)
    e.defaultvars(*which)
    return facts(e, pdf)


def defaults_rule(pdf, x, y, dx, dy, reported, first, which):
    e = made(pdf, x, y, dx, dy, reported)
    for k in first:
        setattr(e, named(k), first[k])
    complete(e, pdf, [])
    complete(e, pdf, [named(k) for k in which])
    return facts(e, pdf)


def complete(e, pdf, which):
    """Defaults for what is not set, or named."""
    x = e.x
    n = len(x)
    if pdf:
        if e.qmax is None or "qmax" in which:
            if e.qmax_reportedbypdf is not None:
                e.qmax = e.qmax_reportedbypdf
            elif e.qmax_fromdata is not None:
                e.qmax = e.qmax_fromdata
            else:
                e.qmax = 0.0
        if e.nyquist is None or "nyquist" in which:
            e.nyquist = e.qmax > 0
        if e.scale is None or "scale" in which:
            e.scale = False
        if e.supersample is None or "supersample" in which:
            e.supersample = 4.0
    if e.cres is None or "cres" in which:
        e.cres = np.pi / e.qmax if pdf and e.qmax > 0 else 4 * (x[-1] - x[0]) / n
    if e.effective_dy is None or "effective_dy" in which:
        if all([d > 0 for d in e.dy]):
            e.effective_dy = e.dy
        else:
            e.effective_dy = np.array([0.05 * (max([v for v in e.y]) - min([v for v in e.y])) for v in x])
    elif np.isscalar(e.effective_dy) and e.effective_dy > 0:
        e.effective_dy = np.array([e.effective_dy for v in x])
    if e.pf is None or "pf" in which:
        e.pf = [GaussianOverR(0.7 if pdf else x[-1] - x[0])]
    if e.rng is None or "rng" in which:
        e.rng = [None, None]
    e.rng = [x[0] if e.rng[0] is None else e.rng[0], x[-1] if e.rng[1] is None else e.rng[1]]
    if hasattr(e.baseline, "estimate_parameters"):
        f = e.baseline
        s = within(e)
        r, y = x[s], e.y[s]
        if oracle.unknown(f, r, y) or oracle.inestimable(f, r, y):
            e.baseline = None
        else:
            e.baseline = f.actualize([oracle.estimate(f, k, r, y) for k in range(f.npars)], "internal")
    if e.baseline is None or "baseline" in which:
        e.baseline = Polynomial(-1).actualize([], "internal")
    if e.error_method is None or "error_method" in which:
        e.error_method = AIC
    if e.initial_peaks is None or "initial_peaks" in which:
        e.initial_peaks = Peaks()


# -- the range ----------------------------------------------------------------------
def within(e):
    lo = 0
    while e.x[lo] < e.rng[0]:
        lo = lo + 1
    hi = len(e.x)
    while e.x[hi - 1] > e.rng[1]:
        hi = hi - 1
    return slice(lo, hi)


def window(pdf, x, y, dx, dy, reported, rng):
    e = made(pdf, x, y, dx, dy, reported)
    e.setvars(rng=rng)
    s = e.getrangeslice()
    return [seq(e.x[s]), seq(e.y[s]), seq(e.dy[s]), seq(rng)]


def window_rule(pdf, x, y, dx, dy, reported, rng):
    lo, hi = rng
    at = [k for k in range(len(x)) if (lo is None or lo <= x[k]) and (hi is None or x[k] <= hi)]
    return [[x[k] for k in at], [y[k] for k in at], [dy[k] for k in at], [lo, hi]]
