"""What a covariance container reports, as a user drives it."""
from diffpy.srmise.modelcluster import ModelCovariance
import numpy as np


def made(model, cov):
    c = ModelCovariance()
    c.setcovariance(model, cov)
    return c


def covariance(model, cov, pairs):
    c = made(model, cov)
    return [c.getcovariance(i, j) for i, j in pairs]


def correlation(model, cov, pairs):
    c = made(model, cov)
    return [c.getcorrelation(i, j) for i, j in pairs]


def value(model, cov, keys):
    c = made(model, cov)
    return [c.getvalue(i) for i in keys]


def uncertainty(model, cov, keys):
    c = made(model, cov)
    return [c.getuncertainty(i) for i in keys]


def both(model, cov, keys):
    c = made(model, cov)
    return [c.get(i) for i in keys]


def pretty(model, cov, keys):
    c = made(model, cov)
    return [c.prettypar(i) for i in keys]


def pretty_rule(values, variances):
    return ["%.5e (%.5e)" % (values[k], np.sqrt(variances[k])) for k in range(len(values))]


def warned(model, cov, threshold):
    return made(model, cov).correlationwarning(threshold)


def warned_default(model, cov):
    return made(model, cov).correlationwarning()


def keeps_values(model, cov, k, x):
    c = made(model, cov)
    model[0].pars[k] = x
    return c.getvalue((0, k))


def keeps_cov(model, cov, x):
    c = made(model, cov)
    cov[0, 0] = x
    return c.getcovariance(0, 0)


def again(model, cov, other, more, pairs):
    """A second covariance replaces the first completely."""
    c = made(other, more)
    c.setcovariance(model, cov)
    return [c.getcovariance(i, j) for i, j in pairs]


def again_value(model, cov, other, more, keys):
    c = made(other, more)
    c.setcovariance(model, cov)
    return [c.getvalue(i) for i in keys]


def transformed(model, cov, f, g, pairs):
    c = made(model, cov)
    c.transform(f, g)
    return [c.getcovariance(i, j) for i, j in pairs]


def transformed_parts(model, cov, f, g, parts, pairs):
    c = made(model, cov)
    c.transform(f, g, parts=parts)
    return [c.getcovariance(i, j) for i, j in pairs]


def transformed_value(model, cov, f, g, keys):
    c = made(model, cov)
    c.transform(f, g)
    return [c.getvalue(i) for i in keys]


def transformed_parts_value(model, cov, f, g, parts, keys):
    c = made(model, cov)
    c.transform(f, g, parts=parts)
    return [c.getvalue(i) for i in keys]


def undefined(kind, what, i, j):
    c = ModelCovariance()
    return use(c, what, i, j)


def after_clear(model, cov, what, i, j):
    c = made(model, cov)
    c.clear()
    return use(c, what, i, j)


def use(c, what, i, j):
    if what == "covariance":
        return c.getcovariance(i, j)
    if what == "correlation":
        return c.getcorrelation(i, j)
    if what == "value":
        return c.getvalue(i)
    if what == "uncertainty":
        return c.getuncertainty(i)
    if what == "get":
        return c.get(i)
    if what == "warning":
        return c.correlationwarning(0.5)
    return c.transform("internal", "default_output")


def warned(model, cov, threshold):
    return made(model, cov).correlationwarning(threshold)


def warned_default(model, cov):
    return made(model, cov).correlationwarning()


def warning(names, corr, threshold):
    """Pairs whose correlation exceeds the threshold, first index first."""
    out = []
    for i in range(len(names)):
        for j in range(i + 1, len(names)):
            if abs(corr[i][j]) > threshold:
                out.append((names[i], names[j], corr[i][j]))
    return out
