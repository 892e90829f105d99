"""Writing an object and reading it back, and what must come back."""
import numpy as np
from diffpy.srmise.basefunction import BaseFunction
from diffpy.srmise.baselines.base import Baseline
from diffpy.srmise.baselines.fromsequence import FromSequence
from diffpy.srmise.baselines.nanospherical import NanoSpherical
from diffpy.srmise.baselines.polynomial import Polynomial
from diffpy.srmise.modelcluster import ModelCluster
from diffpy.srmise.modelevaluators.aic import AIC
from diffpy.srmise.modelevaluators.aicc import AICc
from diffpy.srmise.pdfpeakextraction import PDFPeakExtraction
from diffpy.srmise.peakextraction import PeakExtraction
from diffpy.srmise.peaks.base import Peak, Peaks
from diffpy.srmise.peaks.gaussian import Gaussian
from diffpy.srmise.peaks.gaussianoverr import GaussianOverR
from diffpy.srmise.peaks.terminationripples import TerminationRipples
from diffpy.srmise.srmiseerrors import SrMiseDataFormatError


def kind(f):
    """What a function is."""
    if f is None:
        return None
    own = []
    for k, (v, w) in f.metadict.items():
        own.append([k, v])
    if hasattr(f, "maxwidth"):
        own.append(f.maxwidth)
    if hasattr(f, "qmax"):
        own.append([f.qmax, f.extension, f.supersample])
    if hasattr(f, "degree"):
        own.append(f.degree)
    if hasattr(f, "minx"):
        own.append([f.minx, f.maxx, f.spline])
    return [f.__class__, f.npars, own, f.parameterdict, f.parformats, f.default_formats]


def functions(width, qmax, extension, supersample, x, y):
    g = Gaussian(width)
    gr = GaussianOverR(width)
    return [g, gr, TerminationRipples(gr, qmax, extension, supersample), TerminationRipples(g, qmax), NanoSpherical(), Polynomial(0), Polynomial(2), Polynomial(-1), FromSequence(x, y)]


def function(k, width, qmax, extension, supersample, x, y):
    fs = functions(width, qmax, extension, supersample, x, y)
    f = fs[k]
    g = BaseFunction.factory(f.writestr(fs), fs)
    return [kind(g), kind(g.base), f.base is g.base]


def function_rule(k, width, qmax, extension, supersample, x, y):
    f = functions(width, qmax, extension, supersample, x, y)[k]
    return [kind(f), kind(f.base), True]


# -- parts of a model -------------------------------------------------------------
def facts(p, owners):
    return [p.__class__, owners.index(p.owner()), [v for v in p.pars], [f for f in p.free], p.removable, p.static_owner]


def peak(owners, k, pars, free, removable, static):
    p = Peak(owners[k], pars, free, removable, static)
    return facts(Peak.factory(p.writestr(owners), owners), owners)


def peak_rule(owners, k, pars, free, removable, static):
    return facts(Peak(owners[k], pars, free, removable, static), owners)


def baseline(owners, k, pars, free, removable, static):
    p = Baseline(owners[k], pars, free, removable, static)
    return facts(Baseline.factory(p.writestr(owners), owners), owners)


def baseline_rule(owners, k, pars, free, removable, static):
    return facts(Baseline(owners[k], pars, free, removable, static), owners)


# -- clusters -----------------------------------------------------------------------
def cluster_facts(mc, owners):
    """Everything about a cluster; functions by their place among owners."""
    b = None if mc.baseline is None else facts(mc.baseline, owners)
    return [[facts(p, owners) for p in mc.model], b, [v for v in mc.r_data], [v for v in mc.y_data], [v for v in mc.y_error], mc.slice, mc.error_method,
            None if mc.peak_funcs is None else [owners.index(f) for f in mc.peak_funcs]]


def world(width, qmax, extension, supersample, x, y):
    """Functions: two kinds of peak, ripples on one, another peak of the first kind, and two kinds of baseline."""
    g = Gaussian(width)
    gr = GaussianOverR(width)
    return [g, gr, TerminationRipples(gr, qmax, extension, supersample), Gaussian(qmax), Polynomial(1), FromSequence(x, y)]


def criterion(name):
    if name is None:
        return None
    return AIC if name == "AIC" else AICc


def made(fs, peaks, base, r, v, dv, lo, hi, method, funcs):
    """A cluster on these functions; peaks and base: [function, parameters, free, removable, static]."""
    model = Peaks([Peak(fs[p[0]], p[1], p[2], p[3], p[4]) for p in peaks])
    b = None if base is None else Baseline(fs[base[0]], base[1], base[2], base[3], base[4])
    return ModelCluster(model, b, np.array(r), np.array(v), np.array(dv), slice(lo, hi), criterion(method), [fs[k] for k in funcs])


def kinds(mc):
    """A cluster by the kinds of its functions."""
    b = None if mc.baseline is None else [kind(mc.baseline.owner()), kind(mc.baseline.owner().base)]
    return [[[kind(p.owner()), kind(p.owner().base)] for p in mc.model], b, [[kind(f), kind(f.base)] for f in mc.peak_funcs]]


def shared(mc):
    """Which of the functions of a cluster are one and the same."""
    fs = [p.owner() for p in mc.model] + [f for f in mc.peak_funcs]
    return [[f is g for f in fs] for g in fs]


def values(mc):
    b = None if mc.baseline is None else bare(mc.baseline)
    return [[bare(p) for p in mc.model], b, [v for v in mc.r_data], [v for v in mc.y_data], [v for v in mc.y_error], mc.slice, mc.error_method]


def bare(p):
    return [p.__class__, [v for v in p.pars], [f for f in p.free], p.removable, p.static_owner]


def cluster(width, qmax, extension, supersample, x, y, peaks, base, r, v, dv, lo, hi, method, funcs):
    fs = world(width, qmax, extension, supersample, x, y)
    mc = made(fs, peaks, base, r, v, dv, lo, hi, method, funcs)
    q = ModelCluster.factory(mc.writestr())
    p = ModelCluster.factory(mc.writestr(pfbaselist=fs[:4], blfbaselist=fs[4:]), pfbaselist=fs[:4], blfbaselist=fs[4:])
    return [kinds(q), shared(q), values(q), cluster_facts(p, fs)]


def cluster_rule(width, qmax, extension, supersample, x, y, peaks, base, r, v, dv, lo, hi, method, funcs):
    fs = world(width, qmax, extension, supersample, x, y)
    mc = made(fs, peaks, base, r, v, dv, lo, hi, method, funcs)
    return [kinds(mc), shared(mc), values(mc), cluster_facts(mc, fs)]


# -- extractions ----------------------------------------------------------------------------
def extraction(pdf, width, qmax, extension, supersample, x, y, peaks, base, r, v, dv, lo, hi, method, funcs, data, initial, pf, start, cres, rng, how, meta, done):
    fs = world(width, qmax, extension, supersample, x, y)
    e = filled(fs, pdf, peaks, base, r, v, dv, lo, hi, method, funcs, data, initial, pf, start, cres, rng, how, meta, done)
    q = PDFPeakExtraction() if pdf else PeakExtraction()
    q.readstr(e.writestr())
    return [seen(q, pdf)]


def extraction_rule(pdf, width, qmax, extension, supersample, x, y, peaks, base, r, v, dv, lo, hi, method, funcs, data, initial, pf, start, cres, rng, how, meta, done):
    fs = world(width, qmax, extension, supersample, x, y)
    e = filled(fs, pdf, peaks, base, r, v, dv, lo, hi, method, funcs, data, initial, pf, start, cres, rng, how, meta, done)
    return [seen(e, pdf)]


def filled(fs, pdf, peaks, base, r, v, dv, lo, hi, method, funcs, data, initial, pf, start, cres, rng, how, meta, done):
    e = PDFPeakExtraction() if pdf else PeakExtraction()
    e.x, e.y, e.dx, e.dy, e.effective_dy = [None if d is None else np.array(d) for d in data]
    e.initial_peaks = None if initial is None else Peaks([Peak(fs[p[0]], p[1], p[2], p[3], p[4]) for p in initial])
    e.pf = None if pf is None else [fs[k] for k in pf]
    if start is None:
        e.baseline = None
    elif len(start) == 1:
        e.baseline = fs[start[0]]
    else:
        e.baseline = Baseline(fs[start[0]], start[1], start[2], start[3], start[4])
    e.cres = cres
    e.error_method = criterion(method)
    e.rng = rng
    e.extraction_type = how
    e.extracted = made(fs, peaks, base, r, v, dv, lo, hi, method, funcs) if done else None
    if pdf:
        e.filename, e.nyquist, e.qmax, e.qmax_reportedbypdf, e.qmax_fromdata, e.scale, e.supersample = meta
    return e


def seen(e, pdf):
    """An extraction by the kinds of its functions."""
    out = [[None if d is None else [z for z in d] for d in [e.x, e.y, e.dx, e.dy, e.effective_dy]], e.cres, e.error_method, e.rng, e.extraction_type]
    out.append(None if e.pf is None else [[kind(f), kind(f.base)] for f in e.pf])
    out.append(None if e.initial_peaks is None else [[bare(p), kind(p.owner()), kind(p.owner().base)] for p in e.initial_peaks])
    fs = []
    if e.pf is not None:
        fs.extend(e.pf)
    if e.initial_peaks is not None:
        fs.extend([p.owner() for p in e.initial_peaks])
    if e.baseline is None:
        out.append(None)
    elif hasattr(e.baseline, "owner"):
        out.append([bare(e.baseline), kind(e.baseline.owner())])
    else:
        out.append(kind(e.baseline))
    if e.extracted is None:
        out.append(None)
    else:
        out.append([kinds(e.extracted), values(e.extracted)])
        fs.extend([p.owner() for p in e.extracted.model])
        fs.extend(e.extracted.peak_funcs)
    out.append([[f is g for f in fs] for g in fs])
    if pdf:
        out.append([e.filename, e.nyquist, e.qmax, e.qmax_reportedbypdf, e.qmax_fromdata, e.scale, e.supersample])
    return out


# -- damaged texts -----------------------------------------------------------------------------
def text_of_extraction(pdf, width, qmax, extension, supersample, x, y, peaks, base, r, v, dv, lo, hi, method, funcs, data, initial, pf, start, cres, rng, how, meta, done):
    fs = world(width, qmax, extension, supersample, x, y)
    return filled(fs, pdf, peaks, base, r, v, dv, lo, hi, method, funcs, data, initial, pf, start, cres, rng, how, meta, done).writestr()


def text_of_cluster(width, qmax, extension, supersample, x, y, peaks, base, r, v, dv, lo, hi, method, funcs):
    return made(world(width, qmax, extension, supersample, x, y), peaks, base, r, v, dv, lo, hi, method, funcs).writestr()


def read_extraction(text, pdf):
    q = PDFPeakExtraction() if pdf else PeakExtraction()
    try:
        q.readstr(text)
    except SrMiseDataFormatError:
        return "refused"
    return "accepted"


def read_cluster(text):
    try:
        ModelCluster.factory(text)
    except SrMiseDataFormatError:
        return "refused"
    return "accepted"
