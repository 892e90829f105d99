"""C04: information criteria have their documented values."""
from sa.check import *

EXPL = ("The statistic, the growth test and the Akaike weights of every model evaluator are evaluated into value terms for an arbitrary fit and compared, "
        "case by case, with the documented formulas evaluated by the same interpreter; the object must record what it returns.")
PURE = ("value", "npars")
NPARS = lambda t: t.op == "call" and t.a[0] == "len" or t.op == "attr" and t.a[1] == "size" or t.op == "mcall" and t.a[0] == "npars"      # noqa: E731


def equiv():
    return Equiv(integer=NPARS, vocab=("value", "npars", "chi_squared", "SrMiseModelEvaluatorError"))


def one(c, cls, spec, growth):
    cfg = lambda: Config(pure=PURE)     # noqa: E731
    attrs = dict(instance(c, cls))
    for cf in (True, False, None):
        args = {} if cf is None else {"count_fixed": const(cf)}
        code = c.run(cls + ".evaluate", cls=cls, config=cfg(), args=args, attrs=attrs, defaults=cf is None)
        rule = c.run(c.specfunc("evaluators", spec), config=cfg(), args=args, defaults=cf is None)
        e = equiv()
        c.equal("%s of a fit (count_fixed %s)" % (cls, cf), code.f.where(), code.outcome, rule.outcome, (), e)
        c.equal("%s records the statistic it returns (count_fixed %s)" % (cls, cf), code.f.where(), code.attr("stat"), rule.value, (), e)
        chi = c.run(c.specfunc("evaluators", "chisq"), config=cfg())
        c.equal("%s records chi-squared (count_fixed %s)" % (cls, cf), code.f.where(), code.attr("chisq"), chi.value, (), e)
    code = c.run(cls + ".growth_justified", cls=cls, config=cfg(), attrs=attrs, args={"fit": sym("fit"), "k_prime": sym("more")})
    rule = c.run(c.specfunc("evaluators", growth), config=cfg())
    e = equiv()
    c.equal("%s: growth is justified when the data are enough and the penalty is below chi-squared" % cls, code.f.where(), code.outcome, rule.outcome, (mk("le", const(0), sym("more")), mk("le", const(1), mk("attr", sym("fit"), "size")),
             mk("le", const(0), c.term("fit.model.npars(count_fixed=False)", pure=PURE))), e)
    for fn, sp in (("akaikeweights", "weights"), ("akaikeprobs", "probs")):
        code = c.run(cls + "." + fn, config=cfg(), args={"aics": sym("aics")})
        rule = c.run(c.specfunc("evaluators", sp), config=cfg())
        c.equal("%s.%s" % (cls, fn), code.f.where(), code.value, rule.value)


def check(c):
    c.attempt("AIC", one, c, "AIC", "aic", "aic_growth")
    c.attempt("AICc", one, c, "AICc", "aicc", "aicc_growth")
    return c.finish(EXPL, ("an evaluator is used for one fit", "fits have at least one point"), minimum=4)
