"""What evaluating a model function on a grid must yield."""
import numpy as np


def jacobian(self, p, r, rng=None):
    if rng is None:
        rng = slice(0, len(r))
    raw = self._jacobianraw(p.pars, r[rng], p.free)
    out = []
    for k in range(len(raw)):
        if raw[k] is None:
            out.append(None)
        else:
            col = np.zeros(len(r))
            col[rng] = raw[k]
            out.append(col)
    return out


def roundtrip(self, pars, f, g):
    there = self.transform_parameters(pars, f, g)
    return self.transform_parameters(there, g, f)


def through(self, pars, f, g, h):
    return self.transform_parameters(self.transform_parameters(pars, f, g), g, h)


def value_of(self, pars, f, r):
    """The curve drawn by parameters given in format f."""
    return self._valueraw(self.transform_parameters(pars, f, "internal"), r)


def gaussian_curve(r, center, sigma, area):
    return area / (sigma * np.sqrt(2 * np.pi)) * np.exp(-((r - center) ** 2) / (2 * sigma**2))


def curve_pwa(self, pars, r):
    return gaussian_curve(r, pars[0], pars[1] / (2 * np.sqrt(2 * np.log(2))), pars[2])


def curve_mu_sigma_area(self, pars, r):
    return gaussian_curve(r, pars[0], pars[1], pars[2])


def curve_pwa_over_r(self, pars, r):
    return gaussian_curve(r, pars[0], pars[1] / (2 * np.sqrt(2 * np.log(2))), pars[2]) / np.abs(r)


def curve_mu_sigma_area_over_r(self, pars, r):
    return gaussian_curve(r, pars[0], pars[1], pars[2]) / np.abs(r)


# -- scaling -----------------------------------------------------------------------
def scaled(self, pars, x, scale):
    """Height at x and the maximum of the peak after scaling."""
    new = self.scale_at(pars, x, scale)
    top = self.max(new)
    return [self._valueraw(new, x), top[0], top[1]]


def scaled_rule(self, pars, x, scale):
    top = self.max(pars)
    return [scale * self._valueraw(pars, x), top[0], top[1]]


# stand-ins: parameters are centre, standard deviation and area, in every format
def unconverted(self, pars, in_format=None, out_format=None):
    return np.array(pars)


def drawn_mu(self, pars, r):
    return gaussian_curve(r, pars[0], pars[1], pars[2])


def drawn_mu_over_r(self, pars, r):
    return gaussian_curve(r, pars[0], pars[1], pars[2]) / np.abs(r)


def gaussian_scalable(self, x, scale, mu, sigma, area):
    """Some Gaussian with the same maximum has scale times the height at x."""
    return scale > 0 and (scale == 1 or x != mu and (x - mu) ** 2 + 2 * np.log(1 / scale) * sigma**2 > 0)


def gaussianoverr_scalable(self, x, scale, mu, sigma, area):
    if scale <= 0:
        return False
    if scale == 1:
        return True
    if mu**2 <= 4 * sigma**2:
        return False
    top = 0.5 * (mu + np.sqrt(mu**2 - 4 * sigma**2))
    spread = x - top + top * (np.log(1 / scale) + (x - top) * (x - 2 * mu + top) / (2 * sigma**2))
    return spread > 0 and 0.5 * (x - top) ** 2 < top * spread


# -- estimation -----------------------------------------------------------------------
def estimated(self, r, y):
    """Height at the position of the estimate."""
    p = self.estimate_parameters(r, y)
    return self._valueraw(p, p[0])


def estimated_rule(self, r, y):
    return max(y[[i for i in range(len(y)) if y[i] > 0]])


def estimable(self, r, y):
    return len(r) == len(y) and len([i for i in range(len(y)) if y[i] > 0]) >= 3
