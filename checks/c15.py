"""C15: data, settings and defaults of an extraction."""
import itertools

from sa.check import *

EXPL = """An extraction is given data and settings that are unknown, missing, too long, or wrong, then further settings or requests for defaults; what is then in force, and at a refusal what was before,
is compared case by case with the rules, written down directly. The search for qmax is unknown and may fail."""
N = 3


def heap(c):
    h = Heap(c.p)
    a = {k: h.list(k, [sym("%s%d" % (k, j)) for j in range(N)]) for k in ("x", "y", "dx", "dy")}
    return h, a


ORDER = [mk("lt", sym("x0"), sym("x1")), mk("lt", sym("x1"), sym("x2"))]
REAL = [negate(mk("is", sym(k), NONE)) for k in ("cres", "lo", "hi", "qmax", "ss", "dg")]
REAL += [mk("ne", sym("qmax"), const("automatic")), mk("le", const(1.0), sym("ss"))]
SOME = [mk("lt", const(0), sym("dy%d" % j)) for j in range(N)]
INSIDE = [mk("lt", a, b) for a, b in ((sym("x0"), sym("lo")), (sym("lo"), sym("x1")), (sym("x1"), sym("hi")), (sym("hi"), sym("x2")))]


def pair(c, name, where, h, driver, args, facts=ORDER):
    cf = Config(accidents=False, loops=N + 1, text=True, arrays=True, number=lambda t: t.a[0] in ('oracle.qmax',), stubs={"pdfpeakextraction.find_qmax": c.specfunc("settings", "found")})
    r = c.run(c.specfunc("settings", driver), config=cf, heap=h, args=args, guard=facts)
    s = c.run(c.specfunc("settings", driver + "_rule"), config=cf, heap=h, args=args, guard=facts)
    return c.equal(name, where, r.outcome, s.outcome, facts, Equiv(vocab=("oracle",), narrow=True))


def data(c, pdf):
    cls = "PDFPeakExtraction" if pdf else "PeakExtraction"
    where = c.p.func("PeakExtraction.setdata").where()
    for dx in (0, 2, 3, 4):
        for dy in (0, 2, 3, 4):
            for ny in (2, 3, 4) if dx and dy else (3,):
                h, a = heap(c)
                for k, n in (("y", ny), ("dx", dx), ("dy", dy)):
                    a[k] = h.list(k, [sym("%s%d" % (k, j)) for j in range(n)]) if n else NONE
                pair(c, "data are taken whole or refused: %s y=%d dx=%d dy=%d" % (cls, ny, dx, dy), where, h, "data", dict(a, pdf=const(pdf)))


def load(c):
    """New data for an extraction that has data and settings."""
    for reported in (NONE, sym("rq")):
        h, a = heap(c)
        v = values(h, c)
        d = h.obj("file", c.p.cls("PDFDataSet"), robs=h.list("r", [sym("r%d" % j) for j in range(N)]), Gobs=h.list("g", [sym("g%d" % j) for j in range(N)]), drobs=h.list("dr", [sym("dr%d" % j) for j in range(N)]),
                  dGobs=h.list("dG", [sym("dG%d" % j) for j in range(N)]), qmax=reported)
        a.update(pdf=d, reported=sym("oldq"), first=kw(v, h))
        pair(c, "loading a data set starts afresh: reported qmax %s" % show(reported), c.p.func("PDFPeakExtraction.loadpdf").where(), h, "load", a, ORDER + REAL + INSIDE + SOME)


def obj(h, c, n):
    return h.obj("func%d" % n, c.spec("settings").defs["AnyFunction"][1], npars=const(2), parameterdict=mk("dict", (const("a"), const(0)), (const("b"), const(1))))


def values(h, c):
    """Some settings, by name."""
    f, g = obj(h, c, 1), obj(h, c, 2)
    bl = c.p.cls("Baseline")
    peak = lambda n: h.obj("peak%d" % n, c.p.cls("Peak"), owner_=f, pars=h.list("q%d" % n, [sym("q%d_%d" % (n, j)) for j in range(2)]), free=h.list("m%d" % n, [const(True)] * 2))
    return dict(cres=sym("cres"), effective_dy=h.list("edy", [sym("edy%d" % j) for j in range(N)]), pf=h.list("pf", [f, g]), rng=h.list("rng", [sym("lo"), sym("hi")]), error_method=mk("class", c.p.cls("AICc").qual), qmax=sym("qmax"),
                nyquist=const(True), scale=const(True), supersample=sym("ss"), baseline=g, initial_peaks=h.list("initial", [peak(0), peak(1)]))


def kw(d, h, **more):
    return mk("dict", *[(const(k), v) for k, v in d.items()])


def sequence(c, pdf, tag, first, then, driver="settings", facts=SOME, reported=NONE):
    h, a = heap(c)
    v = values(h, c)

    def pick(d):
        out = {}
        for k, x in d.items():
            x = v[k] if x is None else x
            out[k] = h.list("given_" + k, list(x[1:])) if isinstance(x, tuple) and x[0] == "rng" else x
        return kw(out, h)
    a.update(pdf=const(pdf), reported=reported, first=pick(first))
    a["then" if driver == "settings" else "which"] = pick(then) if driver == "settings" else h.list("names", [const(k) for k in then])
    pair(c, "%s: %s" % ("PDFPeakExtraction" if pdf else "PeakExtraction", tag), c.p.func(("PDFPeakExtraction." if pdf else "PeakExtraction.") + ("setvars" if driver == "settings" else "defaultvars")).where(), h, driver, a, ORDER + REAL + INSIDE + list(facts))


def windows(c, pdf):
    """Every place of the limits among the points."""
    x = [sym("x%d" % j) for j in range(N)]
    where = c.p.func("PeakExtraction.getrangeslice").where()

    def spots(v):
        for j in range(N):
            yield 2 * j, "on %d" % j, [mk("eq", v, x[j])]
            if j:
                yield 2 * j - 1, "between %d and %d" % (j - 1, j), [mk("lt", x[j - 1], v), mk("lt", v, x[j])]
        yield -1, "before", [mk("lt", v, x[0])]
        yield 2 * N, "after", [mk("lt", x[-1], v)]
        yield None, "none", None
    for (ls, ln, lf), (hs, hn, hf) in itertools.product(spots(sym("lo")), spots(sym("hi"))):
        if ln == "after" or hn == "before" or None not in (ls, hs) and ls > hs:
            continue        # nothing in range
        facts = ORDER + (lf or []) + (hf or [])
        if lf is not None and hf is not None:
            facts = facts + [mk("le", sym("lo"), sym("hi"))]
        h, a = heap(c)
        a.update(pdf=const(pdf), reported=NONE, rng=h.list("rng", [sym("lo") if lf is not None else NONE, sym("hi") if hf is not None else NONE]))
        pair(c, "the range is exactly the points within it: %s lower limit %s, upper %s" % ("PDF" if pdf else "plain", ln, hn), where, h, "window", a, facts + REAL + SOME)


def check(c):
    for pdf in (False, True):
        names = ("cres", "effective_dy", "pf", "rng", "error_method", "baseline", "initial_peaks") + (("qmax", "nyquist", "scale", "supersample") if pdf else ())
        auto = const("automatic")
        cls = "PDF: " if pdf else ""
        c.attempt("data", data, c, pdf)
        do = lambda tag, first, then, **k: c.attempt(tag, sequence, c, pdf, tag, first, then, **k)
        do("defaults", {}, {})
        for j in range(N):
            do("defaults when no %dth uncertainty" % j, {}, {}, facts=[mk("le", sym("dy%d" % j), const(0))])
        do("default uncertainty", {"effective_dy": None}, ["effective_dy"], driver="defaults", facts=())
        for k in names:
            do("one setting, " + k, {}, {k: None})
            do("then another, " + k, {k: None}, {"cres" if k != "cres" else "pf": None})
            do("then none, " + k, {k: None}, {k: NONE})
            do("an unknown one after " + k, {}, {k: None, "unknown": const(1)})
            do("an unknown one before " + k, {}, {"unknown": const(1), k: None})
            do("default of " + k, {k: None}, [k], driver="defaults")
            do("default of another than " + k, {k: None}, ["initial_peaks", "rng" if k != "rng" else "cres"], driver="defaults")
        do("all of them", {}, {k: None for k in names})
        do("all of them to default", {k: None for k in names}, list(names), driver="defaults")
        do("a number as uncertainty", {}, {"effective_dy": sym("dg")})
        do("uncertainty of nothing", {}, {"effective_dy": const(0)})
        for lo in (sym("lo"), NONE):
            for hi in (sym("hi"), NONE):
                a = heap(c)[0]
                do("range %s to %s" % (show(lo), show(hi)), {}, {"rng": ("rng", lo, hi)})
        if pdf:
            do("both names of the uncertainty", {}, {"dg": sym("dg"), "effective_dy": sym("dy0")})
            do("both names of the uncertainty, reversed", {"cres": None}, {"effective_dy": sym("dg"), "dg": sym("dg")})
            do("the other name of the uncertainty", {}, {"dg": sym("dg")})
            for k in ((), ("cres",)):
                do("default of the other name of the uncertainty%s" % (k and " with another" or ""), {"effective_dy": None, "cres": None}, ["dg", *k], driver="defaults")
            do("default of both names", {"effective_dy": None}, ["effective_dy", "dg"], driver="defaults")
            do("automatic qmax", {"qmax": None}, {"qmax": auto})
            do("automatic qmax after a cres", {"cres": None, "qmax": None}, {"cres": NONE, "qmax": auto})
            do("reported qmax", {}, {}, reported=sym("qmax"))
            do("reported qmax, asked for the default", {"qmax": const(0.0)}, ["qmax"], driver="defaults", reported=sym("qmax"))
            do("reported qmax and automatic", {}, {"qmax": auto}, reported=sym("qmax"))
            do("no qmax", {}, {"qmax": const(0.0)})
            do("sampling follows qmax", {"qmax": const(0.0)}, ["nyquist"], driver="defaults")
            do("sampling follows a later qmax", {"qmax": const(0.0)}, {"qmax": sym("qmax"), "nyquist": NONE, "cres": NONE})
            do("supersampling too low with others", {}, {"cres": None, "supersample": const(0.5)})
            do("supersampling too low before others", {}, {"supersample": const(0.5), "cres": None})
            for v in (0.99, 1.0, 1, 2.5):
                do("supersampling of %s" % v, {}, {"supersample": const(v)})
    c.attempt("load", load, c)
    for pdf in (False, True):
        c.attempt("windows", windows, c, pdf)
    return c.finish(EXPL, ("no not-a-number among the data",), minimum=30)
