"""Quality of a fit and its use, as documented."""
from diffpy.srmise.srmiseerrors import SrMiseModelEvaluatorError
import numpy as np


def chisq(fit):
    return np.sum(((fit.y_cluster - fit.value()) / fit.error_cluster) ** 2)


def aic(fit, count_fixed=False, kshift=0):
    k = fit.model.npars(count_fixed=count_fixed) + kshift
    if k < 0:
        raise SrMiseModelEvaluatorError("")
    return chisq(fit) + 2 * k


def aicc(fit, count_fixed=False, kshift=0):
    k = fit.model.npars(count_fixed=count_fixed) + kshift
    if k < 0:
        raise SrMiseModelEvaluatorError("")
    n = fit.size
    if n < k + 2:
        n = k + 2
    return chisq(fit) + 2 * k + 2 * k * (k + 1) / (n - k - 1)


def aic_growth(fit, more):
    if fit.size < 1:
        return False
    return 2 * more < chisq(fit)


def aicc_growth(fit, more):
    k = fit.model.npars(count_fixed=False)
    n = fit.size
    if n < k + more + 2:
        return False
    if n < k + 2:
        n = k + 2
    grown = 2 * (k + more) + 2 * (k + more) * (k + more + 1) / (n - (k + more) - 1)
    now = 2 * k + 2 * k * (k + 1) / (n - k - 1)
    return grown - now < chisq(fit)


def weights(aics):
    s = np.array([a.stat for a in aics])
    return np.exp(-(s - min(s)) / 2)


def probs(aics):
    s = np.array([a.stat for a in aics])
    w = np.exp(-(s - min(s)) / 2)
    return w / np.sum(w)


def better(op, a, b, higher):
    """Outcome of a comparison `a op b` of two evaluated fits by the same method."""
    if op == "lt":
        return a < b if higher else b < a
    if op == "le":
        return a <= b if higher else b <= a
    if op == "gt":
        return a > b if higher else b > a
    if op == "ge":
        return a >= b if higher else b >= a
    if op == "eq":
        return a == b
    return a != b
