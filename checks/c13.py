"""C13: what is saved is what is loaded."""
import re

from sa.check import *

EXPL = """Writer and reader are interpreted one after the other on small objects whose settings, parameters and data are unknown. Texts are
constants with a hole for each unknown value written, so the regular expressions, splits and evaluations of the readers are folded on them; the object read
back, case by case, is compared with the one written, functions by kind, settings and identity."""
CF = dict(accidents=False, text=True, recursion=4)


DATA = re.compile(r"(x|y|dx|dy|edy)_\d+|(r|v|dv)\d+|cres")


def fair(t):
    """Six digits are enough of the data and the clustering threshold, everything else comes back exactly."""
    def f(x):
        if x.op == "call" and x.a[0] == "rounded" and x.a[1][1].op == "sym" and DATA.fullmatch(x.a[1][1].a[0]) and x.a[1][0].a[0].isdigit() and int(x.a[1][0].a[0]) >= 6:
            return x.a[1][1]
        return x
    return rewrite(t, f)


def pair(c, name, where, h, driver, args, facts=(), rule=None):
    cf = Config(**CF)
    r = c.run(c.specfunc("saved", driver), config=cf, heap=h, args=args, guard=facts)
    s = c.run(c.specfunc("saved", rule or driver + "_rule"), config=cf, heap=h, args=args, guard=facts)
    return c.equal(name, where, fair(r.outcome), s.outcome, facts, Equiv(vocab=("oracle", "rounded", "isinstance"), narrow=True))


SETUP = [mk("lt", const(0), sym("width"))] + [mk("call", "isinstance", (sym(k), mk("builtin", "float")), ()) for k in ("width", "qmax", "extension", "p0", "p1", "x0")]


def heap(c):
    h = Heap(c.p)
    a = {k: sym(k) for k in ("width", "qmax", "extension", "supersample")}
    a.update({k: h.list(k, [sym("%s%d" % (k, j)) for j in range(3)]) for k in "xy"})
    return h, a


def functions(c, k):
    h, a = heap(c)
    a["k"] = const(k)
    pair(c, "functions come back as written: %d" % k, c.p.func("BaseFunction.writestr").where(), h, "function", a, SETUP)


def part(c, what, k, mask, removable, static):
    h, _ = heap(c)
    cls = c.spec("region").defs["AnyFunction"][1]
    owners = [h.obj("owner%d" % j, cls) for j in range(3)]
    for o in owners:
        h.attrs[(o, "parameterdict")] = mk("dict", *[(const("ab"[j]), const(j)) for j in range(len(mask))])
        h.attrs[(o, "npars")] = const(len(mask))
    a = dict(owners=h.list("owners", owners), k=const(k), pars=h.list("pars", [sym("p%d" % j) for j in range(len(mask))]), free=h.list("free", [const(m) for m in mask]), removable=const(removable), static=const(static))
    pair(c, "a %s comes back as written: %d %s %s %s" % (what, k, mask, removable, static), c.p.func("ModelPart.writestr").where(), h, what, a)


def row(h, n, k, mask, removable=True, static=False):
    return h.list("row%s" % n, [const(k), h.list("pars%s" % n, [sym("p%s_%d" % (n, j)) for j in range(len(mask))]), h.list("free%s" % n, [const(m) for m in mask]), const(removable), const(static)])


def cluster_args(c, h, a, peaks, base, method, funcs):
    T, F = True, False
    a["peaks"] = h.list("peaks", [row(h, "k%d" % j, k, (T, j == 0, T), j != 1, j == 1) for j, k in enumerate(peaks)])
    a["base"] = NONE if base is None else row(h, "b", base, (F, T) if base == 4 else (), F)
    for k in ("r", "v", "dv"):
        a[k] = h.list(k, [sym("%s%d" % (k, j)) for j in range(3)])
    a.update(lo=sym("lo"), hi=sym("hi"), method=const(method), funcs=h.list("funcs", [const(k) for k in funcs]))
    return a


def clusters(c, peaks, base, method, funcs):
    h, a = heap(c)
    cluster_args(c, h, a, peaks, base, method, funcs)
    pair(c, "a cluster comes back as written: peaks %s, baseline %s, %s, functions %s" % (peaks, base, method, funcs), c.p.func("ModelCluster.writestr").where(), h, "cluster", a, SETUP)


def extraction_args(c, h, a, pdf, which, method, rng, start, initial, pf, how, done):
    """which: the columns of data that are there."""
    T, F = True, False
    cluster_args(c, h, a, [1, 2, 3], 4, method or "AIC", [1, 0])
    a["method"] = const(method) if not done else a["method"]
    a["data"] = h.list("data", [h.list("d_" + k, [sym("%s_%d" % (k, j)) for j in range(3)]) if k in which else NONE for k in ("x", "y", "dx", "dy", "edy")])
    a["initial"] = NONE if initial is None else h.list("initial", [row(h, "i%d" % j, k, (T, F, T), j == 0, F) for j, k in enumerate(initial)])
    a["pf"] = NONE if pf is None else h.list("pf", [const(k) for k in pf])
    a["start"] = NONE if start is None else h.list("start", [const(start)]) if start >= 0 else row(h, "s", -start, (T, F) if start == -4 else ())
    a["cres"] = NONE if rng is None else sym("cres")
    a["rng"] = NONE if rng is None else h.list("rng", [sym("from_"), sym("to_")])
    a.update(pdf=const(pdf), how=const(how), done=const(done))
    a["meta"] = mk("tuple", *[sym("m%d" % j) for j in range(7)])


def extractions(c, pdf, *x):
    h, a = heap(c)
    extraction_args(c, h, a, pdf, *x)
    pair(c, "an extraction comes back as written: " + " ".join(map(str, (["plain", "pdf"][pdf],) + x)), c.p.func("PeakExtraction.writestr").where(), h, "extraction", a, SETUP + [negate(mk("is", sym("cres"), NONE))])


def check(c):
    T, F = True, False
    for k in range(9):
        c.attempt("functions", functions, c, k)
    for what in ("peak", "baseline"):
        for k, mask, r, s in ((0, (), T, F), (1, (T,), F, F), (2, (T, F), T, T), (0, (F, F), F, T)):
            c.attempt("part", part, c, what, k, mask, r, s)
    for x in (([], None, "AIC", [0]), ([1, 3, 0], 4, "AICc", [0, 1, 3]), ([2], 5, "AIC", [1]), ([1, 2], None, "AICc", [2, 0])):
        c.attempt("clusters", clusters, c, *x)
    for pdf in (F, T):
        for x in ((("x", "y", "dx", "dy", "edy"), "AIC", 1, 4, (1,), (0, 3, 1), "extract", T), (("x", "y", "dx", "edy"), "AICc", None, -4, (2, 3), (2,), "fit", T), (("x", "y", "dy", "edy"), "AICc", 1, -5, None, (1, 0), None, F),
                  (("x", "y"), None, None, None, (), None, None, F), (("x", "y", "edy"), "AIC", 1, 5, None, (1,), "fit", T)):
            c.attempt("extractions", extractions, c, pdf, *x)
    return c.finish(EXPL, minimum=6)
