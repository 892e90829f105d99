"""C01: the analytic derivatives are the derivatives of the value that is fitted."""
import itertools

from sa.check import *
from sa.check import derivative

EXPL = ("Each model function's value and derivative routines are evaluated into value terms (constructor constants bound), for every mask of "
        "free/fixed parameters; each derivative entry is compared, by algebra over the same atoms, with the symbolic partial derivative of the "
        "value term. Entries of fixed parameters must be absent. The base wrapper is analysed for all ranges.")


def one(c, cls, ctor, n, positive=(), nonzero=(), tag="", arrays=None):
    attrs = instance(c, cls, **ctor)
    pars = mk("list", *[sym("p%d" % k) for k in range(n)])
    r = sym("r")
    pos = set(positive)
    vfun, jfun = c.p.cls(cls).find("_valueraw"), c.p.cls(cls).find("_jacobianraw")
    if vfun is None or jfun is None:
        raise AnalysisBroken("%s has no value or derivative routine" % cls)
    facts0 = [mk("ne", sym("p%d" % k), const(0)) for k in nonzero] + [mk("lt", const(0), sym(x)) for x in positive]
    for scalar in (False, True):
        V = c.run(vfun, cls=cls, args={"pars": pars, "r": r}, attrs=attrs, config=scalarcfg(scalar))
        val = V.value
        e = Equiv(positive=lambda t: t.op == "sym" and t.a[0] in pos, vocab=("searchsorted",))
        for mask in itertools.product((True, False), repeat=n):
            free = mk("list", *[const(m) for m in mask])
            J = c.run(jfun, cls=cls, args={"pars": pars, "r": r, "free": free}, attrs=attrs, config=scalarcfg(scalar))
            facts = list(facts0)
            if scalar is not None:
                facts.append(mk("call", "numpy.isscalar", (r,), ()) if scalar else negate(mk("call", "numpy.isscalar", (r,), ())))
            for k in range(n):
                name = "%s%s derivative of parameter %d, %s, free=%s" % (cls, tag, k, "at a point" if scalar else "on a grid", "".join("01"[m] for m in mask))
                entry = e.prep(mk("idx", J.value, const(k)))
                if not mask[k]:
                    c.equal(name, jfun.where(), entry, NONE, facts, e)
                    continue
                d = derivative(e, val, sym("p%d" % k))
                if d is None:
                    c.add(name, jfun.where(), "?", "the value is not expressible")
                    continue
                c.equal(name, jfun.where(), entry, d, facts, e)


def scalarcfg(scalar):
    return Config(pure=("searchsorted",))


def wrapper(c):
    cfg = Config(opaque=lambda f, r, i: f.name in ("_valueraw", "_jacobianraw"), pure=("_valueraw", "_jacobianraw"))
    for what in ("jacobian",):
        code = c.run("BaseFunction." + what, cls="BaseFunction", config=cfg)
        spec = c.run(c.specfunc("functions", what), cls="BaseFunction", config=cfg)
        c.equal("entries of the derivative placed on the evaluated range, absent ones kept absent", code.f.where(), code.value, spec.value,
                [mk("is", SELF, mk("attr", sym("p"), "_owner"))], Equiv(vocab=("_jacobianraw", "_valueraw")))


def check(c):
    c.attempt("Gaussian", one, c, "Gaussian", {"maxwidth": sym("maxwidth")}, 3, ("maxwidth",), (2,))
    c.attempt("GaussianOverR", one, c, "GaussianOverR", {"maxwidth": sym("maxwidth")}, 3, ("maxwidth",), (2,))
    c.attempt("NanoSpherical", one, c, "NanoSpherical", {}, 2, (), (0, 1))
    for d in range(-1, 5 if c.tier == "thorough" else 4):
        c.attempt("Polynomial", one, c, "Polynomial", {"degree": const(d)}, d + 1, (), (), " of degree %d," % d)
    c.attempt("wrapper", wrapper, c)
    return c.finish(EXPL, ("the derivative of |x| at x = 0 is not required",), minimum=20)
