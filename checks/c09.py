"""C09: what a cluster of peaks keeps after a fit."""
import itertools

from sa.check import *
from .c06 import hookfor, world

EXPL = """The fit, contingent fit and reduction of a cluster are driven on known models (one or two peaks, with no, free, fixed or parameterless baseline) by an unknown criterion,
an unknown optimiser that may fail after changing parameters, an unknown clean-up and an unknown scaling, and the same rules are written down directly. The quality reported and every parameter of the
peaks and the baseline afterwards are compared case by case. A difference is reported only when the two value terms are definitely unequal."""
DATA = {k: sym(k) for k in ("r", "y", "dy", "cut")}


FACTS = [negate(mk("is", sym(k), NONE)) for k in ("r", "y", "dy", "cut", "x", "height")]


def setup(c, peaks, background, removable=None):
    h = world(c, list(peaks) + ([background] if background is not None else []))
    del h.contents[SELF]
    for k in range(len(peaks)):
        h.types[h.parts[k]] = c.p.cls("Peak")
        h.attrs[(sym("owner%d" % k), "parameterdict")] = mk("dict", *[(const(("position", "width", "area")[j]), const(j)) for j in range(len(peaks[k]))])
        if removable is not None:
            h.attrs[(h.parts[k], "removable")] = const(removable[k])
    model = h.list("peaks", h.parts[:len(peaks)])
    base = NONE
    if background is not None:
        base = h.parts[-1]
        h.types[base] = c.p.cls("Baseline")
    funcs = h.list("funcs", [h.obj("func0", npars=sym("np0")), h.obj("func1", npars=sym("np1"))])
    return h, dict(DATA, model=model, baseline=base, funcs=funcs)


def config(c, h, **stubs):
    s = {"ModelParts.fit": "fitted", "ModelCluster.cleanfit": "cleaned", "Peaks.match_at": "matched"}
    s.update(stubs)
    return Config(hook=hookfor(h), stubs={k: c.specfunc("cluster", v) for k, v in s.items() if v})


def tagof(peaks, background):
    return "peaks %s, baseline %s" % ("/".join("".join("01"[x] for x in s) for s in peaks), "none" if background is None else "".join("01"[x] for x in background))


def fits(c, peaks, background):
    h, a = setup(c, peaks, background)
    tag = tagof(peaks, background)
    where = c.p.func("ModelCluster.fit").where()
    cf = config(c, h)
    for justify, fb in itertools.product((TRUE, FALSE), (TRUE, FALSE)):
        kw = dict(a, justify=justify, ntrials=sym("ntrials"), fitbaseline=fb)
        r = c.run(c.specfunc("cluster", "fit"), config=cf, heap=h, args=kw, guard=FACTS)
        s = c.run(c.specfunc("cluster", "fit_rule"), config=cf, heap=h, args=dict(kw, background_free=const(background is not None and any(background))), guard=FACTS)
        e = Equiv(vocab=("oracle", "CURVE"))
        name = "%s%s%s" % (tag, ", justified" if justify is TRUE else "", ", with baseline" if fb is TRUE else "")
        c.equal("fit keeps the right model: " + name, where, r.outcome, s.outcome, FACTS, e)


def pair(c, name, where, h, cf, driver, args, extra=None, facts=FACTS, vocab=("oracle", "CURVE")):
    r = c.run(c.specfunc("cluster", driver), config=cf, heap=h, args=args, guard=facts)
    s = c.run(c.specfunc("cluster", driver + "_rule"), config=cf, heap=h, args=dict(args, **(extra or {})), guard=facts)
    return c.equal(name, where, r.outcome, s.outcome, facts, Equiv(vocab=vocab, integer=lambda t: t is sym("last")))


def others(c, peaks, background):
    h, a = setup(c, peaks, background)
    tag = tagof(peaks, background)
    cf = config(c, h, **{"ModelCluster.fit": "settled"})
    pair(c, "a contingent fit waits for enough new points: " + tag, c.p.func("ModelCluster.contingent_fit").where(), h, cf, "contingent",
         dict(a, last=sym("last"), minpoints=sym("minpoints"), threshold=sym("threshold")), facts=FACTS + [mk("le", const(0), sym("last"))])
    if peaks:
        pair(c, "reduction is kept only when fitted and not worse than growth: " + tag, c.p.func("ModelCluster.reduce_to").where(), h, cf, "reduced", dict(a, x=sym("x"), height=sym("height")))


def check(c):
    for peaks in ([(True, False)], [(False,)], [(True, False), (False, True)]):
        for b in (None, (True,), (False,), ()):
            c.attempt("fits", fits, c, peaks, b)
        for b in (None, (True,)):
            c.attempt("others", others, c, peaks, b)
    return c.finish(EXPL, ("a fit, clean-up or scaling changes only free parameters, or removes peaks",), minimum=10)
