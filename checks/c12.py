"""C12: what a cluster shows of the data and of its model."""
from sa.check import *
import itertools
from .c06 import world

EXPL = """A cluster is made on known lists of peaks and kinds of baseline with unknown functions, data and limits of its slice, and then driven: moved, evaluated, plotted, judged by unknown criteria,
counted, given further peaks, cleaned and copied (the copy is then changed). What it shows is compared case by case with the rules, written down directly. Clean-up is decided for every arrangement of the peaks left of, inside and right of
the cluster. A difference is reported only when the two value terms are definitely unequal."""
DATA = {k: sym(k) for k in ("r", "y", "dy", "lo", "hi")}
FACTS = [negate(mk("is", sym(k), NONE)) for k in ("r", "y", "dy", "x", "lo", "hi", "w", "v", "lo2", "hi2")]


def norm(t):
    """Evaluating a part of a grid is evaluating on the part."""
    if t.op == "idx" and t.a[0].op == "call" and t.a[1].op == "slice":
        f = t.a[0]
        if f.a[0] == "oracle.curve":
            return mk("call", "oracle.curve", (f.a[1][0], f.a[1][1], mk("idx", f.a[1][2], t.a[1])), ())
        if f.a[0] == "oracle.partial" and f.a[1][3] is t.a[1]:
            return mk("call", "oracle.curve", (f.a[1][0], f.a[1][1], mk("idx", f.a[1][2], t.a[1])), ())
    if t.op == "call" and t.a[0] == "numpy.array" and len(t.a[1]) == 1 and t.a[1][0].op == "sym":
        return t.a[1][0]
    if t.op == "call" and t.a[0] == "numpy.zeros" and t.a[1][0].op == "call" and t.a[1][0].a[0] == "len":
        return mk("mul", t.a[1][0].a[1][0], const(0.0))
    return None


def setup(c, peaks, background, removable=None, extra=()):
    masks = list(peaks) + list(extra) + ([background] if background is not None else [])
    h = world(c, masks)
    del h.contents[SELF]
    any_ = c.spec("region").defs["AnyFunction"][1]
    for k, m in enumerate(masks):
        h.types[sym("owner%d" % k)] = any_
        h.attrs[(sym("owner%d" % k), "parameterdict")] = mk("dict", *[(const(("position", "width", "area")[j]), const(j)) for j in range(len(m))])
        h.types[h.parts[k]] = c.p.cls("Peak")
        h.attrs[(h.parts[k], "removable")] = const(removable[k] if removable and k < len(removable) else True)
    base = NONE
    if background is not None:
        base = h.parts[-1]
        h.types[base] = c.p.cls("Baseline")
    f = [h.obj("func%d" % k, any_, npars=const(2), parameterdict=mk("dict", (const("position"), const(0)), (const("width"), const(1)))) for k in range(2)]
    n = len(peaks)
    return h, dict(DATA, model=h.list("peaks", h.parts[:n]), baseline=base, funcs=h.list("funcs", f)), h.list("more", h.parts[n:n + len(extra)])


def tagof(peaks, background):
    return "%d peaks, baseline %s" % (len(peaks), "none" if background is None else "".join("01"[x] for x in background))


def pair(c, name, where, h, driver, args, extra=None, facts=FACTS, samples=None):
    cf = Config(accidents=False)
    r = c.run(c.specfunc("region", driver), config=cf, heap=h, args=args, guard=facts)
    s = c.run(c.specfunc("region", driver + "_rule"), config=cf, heap=h, args=dict(args, **(extra or {})), guard=facts)
    return c.equal(name, where, r.outcome, s.outcome, facts, Equiv(vocab=("oracle",), norm=norm, integer=lambda t: t.op == "sym" and t.a[0] in ("lo", "hi", "lo2", "hi2", "w")))


def shown(c, peaks, background):
    h, a, more = setup(c, peaks, background)
    tag = tagof(peaks, background)
    w = lambda f: c.p.func("ModelCluster." + f).where()
    new = {k: sym(k) for k in ("lo2", "hi2")}
    pair(c, "the cluster holds its slice of the data: " + tag, w("change_slice"), h, "region", a)
    pair(c, "no slice is all the data: " + tag, w("change_slice"), h, "whole", {k: v for k, v in a.items() if k not in ("lo", "hi")})
    pair(c, "a moved cluster holds its new slice: " + tag, w("change_slice"), h, "moved", dict(a, **new))
    pair(c, "the curve is baseline and peaks: " + tag, w("value"), h, "curve", dict(a, x=sym("x")))
    pair(c, "plots show each peak on the baseline: " + tag, w("plottable"), h, "plotted", a)
    pair(c, "quality is judged as asked: " + tag, w("quality"), h, "judged", dict(a, shift=sym("shift"), fixed=sym("fixed")))
    masks = list(peaks) + ([background] if background else [])
    counts = [sum(map(len, masks)), sum(map(sum, masks)), sum(map(len, peaks)), sum(map(sum, peaks))]
    pair(c, "parameters are counted as asked: " + tag, w("npars"), h, "counted", a, dict(counts=h.list("counts", [const(n) for n in counts])))
    pair(c, "a copy is complete and independent: " + tag, w("copy"), h, "copied", dict(a, v=sym("v"), w=sym("w")))


def added(c, peaks, background):
    h, a, more = setup(c, peaks, background, extra=[(True, True)])
    tag = tagof(peaks, background)
    facts = FACTS + [mk("ne", sym("q0_0"), sym("q1_0"))]
    pair(c, "external peaks come with their curve: " + tag, c.p.func("ModelCluster.addexternalpeaks").where(), h, "external", dict(a, more=more), facts=facts)


def estimated(c, background):
    h, a, more = setup(c, [], background)
    del a["model"]
    pair(c, "an estimated peak describes the data above the baseline: " + tagof([], background), c.p.func("ModelCluster.estimatepeak").where(), h, "estimated", a)


def cleaned(c, n, removable):
    """Each peak left of, inside or right of the cluster."""
    h, a, more = setup(c, [(True, True)] * n, None, removable)
    rc = mk("idx", sym("r"), mk("slice", sym("lo"), sym("hi"), NONE))
    first, last = mk("idx", rc, const(0)), mk("idx", rc, const(-1))
    for at in itertools.combinations_with_replacement("LIR", n):
        facts = FACTS + [mk("lt", first, last)]
        for k, z in enumerate(at):
            q = sym("q%d_0" % k)
            facts += {"L": [mk("lt", q, first), mk("lt", q, last)], "I": [mk("le", first, q), mk("lt", q, last)], "R": [mk("le", last, q), mk("le", first, q)]}[z]
        pair(c, "clean-up removes useless peaks outside the cluster: %s %s" % ("".join(at), "".join("01"[x] for x in removable)), c.p.func("ModelCluster.cleanfit").where(), h, "cleaned", a, facts=facts)


def check(c):
    for peaks in ([], [(True, False)], [(True, True), (False, True)]):
        for b in (None, (True,), (False, True)):
            c.attempt("shown", shown, c, peaks, b)
    for peaks in ([], [(True, False)]):
        for b in (None, (True,)):
            c.attempt("added", added, c, peaks, b)
    for b in (None, (True,)):
        c.attempt("estimated", estimated, c, b)
    for r in ((True,), (False,), (True, True), (True, False), (False, True)):
        c.attempt("cleaned", cleaned, c, len(r), r)
    return c.finish(EXPL, ("functions evaluate point by point",), minimum=15)
