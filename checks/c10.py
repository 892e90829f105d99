"""C10: scaling and estimating peaks."""
from sa.check import *

EXPL = """The parameters returned by the scaling and estimation of every peak function are substituted into its curve (its documented curve of centre, deviation and area; conversions are decided by another property)
and compared algebraically with the law; the conditions of refusal are compared with the condition under which a solution exists. Differing cases count only at points where both sides are real numbers."""
SUFFIX = {"Gaussian": "", "GaussianOverR": "_over_r"}


def scaling(c, cls):
    attrs = instance(c, cls, maxwidth=sym("maxwidth"))
    pars = mk("list", sym("mu"), sym("sigma"), sym("area"))
    where = c.p.func(cls + ".scale_at").where()
    zero = const(0)
    F = [mk("lt", zero, sym(k)) for k in ("mu", "sigma", "area", "x", "scale")]
    span = {sym("mu"): (1.5, 6), sym("sigma"): (0.1, 0.7), sym("x"): (1.2, 7), sym("scale"): (0.3, 3)}
    e = Equiv(positive=lambda t: t.op == "sym", samples=span)
    cf = Config(stubs={"BaseFunction.transform_parameters": c.specfunc("functions", "unconverted"), cls + "._valueraw": c.specfunc("functions", "drawn_mu" + SUFFIX[cls])})
    a = c.run(c.specfunc("functions", "scaled"), cls=cls, args={"pars": pars}, attrs=attrs, guard=F, config=cf)
    b = c.run(c.specfunc("functions", "scaled_rule"), cls=cls, args={"pars": pars}, attrs=attrs, guard=F, config=cf)
    for k, n in enumerate(("the height at the point is scaled", "the maximum stays where it is", "the maximum keeps its height")):
        c.equal("%s: %s" % (cls, n), where, e.prep(mk("idx", a.value, const(k))), e.prep(mk("idx", b.value, const(k))), F, e)
    r = c.run(cls + ".scale_at", cls=cls, args={"pars": pars}, attrs=attrs, guard=F[:-1], config=cf)
    d = c.run(c.specfunc("functions", cls.lower() + "_scalable"), cls=cls, attrs=attrs, guard=F[:-1])
    no = FALSE
    for x in r.r.raises:
        no = negate(conj(negate(no), negate(conj(*x.guard))))
    narrow = r
    e = Equiv(positive=lambda t: t.op == "sym" and t is not sym("scale"), samples=dict(span))
    c.equal("%s: a peak that cannot keep its maximum is refused" % cls, where, ite(no, FALSE, TRUE), d.value, F[:-1] + quiet(no), e)
    r = c.run(cls + ".scale_at", cls=cls, args={"pars": mk("list", sym("p0"), sym("p1"), sym("p2"))}, attrs=attrs)
    for z in (0, 0.0, -1.5):
        q = c.run(cls + ".scale_at", cls=cls, args={"pars": pars, "scale": const(z)}, attrs=attrs, guard=F[:-1], config=cf)
        c.add("%s: scaling by %s is refused" % (cls, z), where, "bad" if q.r.returns else "ok", "returns a value")
    for x in r.r.raises:
        c.add("%s: refusals are scaling errors" % cls, x.where, "ok" if r.excname(x) == "SrMiseScalingError" else "bad", r.excname(x))
    c.add("%s: too wide peaks are refused" % cls, where, "ok" if len(r.r.raises) > len(narrow.r.raises) else "bad", "no refusal comes from the width")


def estimating(c, cls):
    attrs = instance(c, cls, maxwidth=sym("maxwidth"))
    where = c.p.func(cls + ".estimate_parameters").where()
    F = [mk("lt", const(0), sym("maxwidth"))]
    ok = c.run(c.specfunc("functions", "estimable"), cls=cls, attrs=attrs, guard=F).value
    a = c.run(c.specfunc("functions", "estimated"), cls=cls, attrs=attrs, guard=F)
    b = c.run(c.specfunc("functions", "estimated_rule"), cls=cls, attrs=attrs, guard=F)
    top = b.value
    used = [x for x in subterms(top) if x.op == "idx" and x.a[0] is sym("y") and x.a[1].op != "bv"]
    more = [mk("le", mk("call", "min", (x,), ()), mk("call", "max", (x,), ())) for x in used]
    e = Equiv(positive=lambda t: t is sym("maxwidth") or t.op == "call" and t.a[0] in ("MAX", "MIN", "SUM") or t.op == "idx" and t.a[0].op == "idx",
              samples={sym("maxwidth"): (0.2, 40)})
    c.equal("%s: an estimate has the height of the data at its position" % cls, where, e.prep(a.value), e.prep(top), F + more, e)
    r = c.run(cls + ".estimate_parameters", cls=cls, attrs=attrs, guard=F)
    no = FALSE
    for x in r.r.raises:
        no = negate(conj(negate(no), negate(conj(*x.guard))))
        c.add("%s: refusals are estimation errors" % cls, x.where, "ok" if r.excname(x) == "SrMiseEstimationError" else "bad", r.excname(x))
    c.equal("%s: estimates need three points above zero" % cls, where, ite(no, FALSE, TRUE), ok, F + quiet(no), e)


def quiet(t):
    """Library calls on numbers raise nothing."""
    return [negate(x) for x in sorted(subterms(t), key=lambda x: x.n) if x.op == "sym" and str(x.a[0]).startswith("exc:")]


def check(c):
    for cls in ("Gaussian", "GaussianOverR"):
        c.attempt(cls, scaling, c, cls)
        c.attempt(cls, estimating, c, cls)
    return c.finish(EXPL, ("numbers are real; comparisons with NaN are not modelled", "the point is not exactly at the maximum"), minimum=6)
