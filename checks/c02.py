"""C02: the parameter formats describe the same curve."""
from sa.check import *

EXPL = ("Parameter conversion and evaluation of every model function are evaluated into value terms; composing them in all pairs of formats must "
        "give back the parameters (on the canonical range of the format), every format must draw the documented curve, canonicalisation must "
        "not move the curve, over-wide peaks must be rejected exactly when wider than the maximum, and the result must be newly allocated.")

PEAKS = {"Gaussian": "", "GaussianOverR": "_over_r"}
FWHM = "(2 * np.sqrt(2 * np.log(2)))"


def canonical(c, f):
    p1, mw = sym("p1"), sym("maxwidth")
    w = c.term("p1 * " + FWHM, p1=p1)
    base = [mk("lt", const(0), sym("p2")), mk("lt", const(0), sym("p0"))]
    if f == "internal":
        half = c.term("np.pi / 2")
        return base + [mk("lt", mk("neg", half), p1), mk("lt", p1, half)]
    if f == "pwa":
        return base + [mk("lt", const(0), p1), mk("lt", p1, mw)]
    return base + [mk("lt", const(0), p1), mk("lt", w, mw)]


def samples(f):
    if f == "internal":
        return {sym("p1"): (-1.5, 1.5), sym("maxwidth"): (0.3, 3), sym("r"): (0.2, 6)}
    return {sym("p1"): (0.01, 0.6), sym("maxwidth"): (1.5, 3), sym("r"): (0.2, 6)}


def peak(c, cls, suffix):
    attrs = instance(c, cls, maxwidth=sym("maxwidth"))
    pars = mk("list", sym("p0"), sym("p1"), sym("p2"))
    formats = attrs.get((SELF, "parformats"))
    if formats is None or formats.op != "list":
        raise AnalysisBroken("%s declares no formats" % cls)
    formats = [x.a[0] for x in formats.a]
    where = c.p.func(cls + "._transform_parametersraw").where()

    def eq(f):
        return Equiv(positive=lambda t: t in (sym("maxwidth"),), samples=samples(f))
    for need in ("internal", "pwa", "mu_sigma_area"):
        c.add("%s offers format %s" % (cls, need), where, "ok" if need in formats else "bad", "declared: %s" % formats)
    for f in formats:
        e = eq(f)
        facts = canonical(c, f)
        for g in formats:
            r = c.run(c.specfunc("functions", "roundtrip"), cls=cls, args={"pars": pars, "f": const(f), "g": const(g)}, attrs=attrs)
            for k in range(3):
                c.equal("%s: %s -> %s -> %s gives back parameter %d" % (cls, f, g, f, k), where, e.prep(mk("idx", r.value, const(k))), sym("p%d" % k), facts, e)
            for h in formats:
                if len({f, g, h}) == 3:
                    a = c.run(c.specfunc("functions", "through"), cls=cls, args={"pars": pars, "f": const(f), "g": const(g), "h": const(h)}, attrs=attrs)
                    b = c.run("BaseFunction.transform_parameters", cls=cls, args={"pars": pars, "in_format": const(f), "out_format": const(h)}, attrs=attrs)
                    for k in range(3):
                        c.equal("%s: %s -> %s -> %s is %s -> %s, parameter %d" % (cls, f, g, h, f, h, k), where,
                                e.prep(mk("idx", a.value, const(k))), e.prep(mk("idx", b.value, const(k))), facts, e)
        a = c.run(c.specfunc("functions", "value_of"), cls=cls, args={"pars": pars, "f": const(f)}, attrs=attrs)
        if f == "internal":
            b = c.run(c.p.func(cls + "._valueraw"), cls=cls, args={"pars": pars}, attrs=attrs)
            c.equal("%s: canonical internal parameters draw the same curve" % cls, where, a.value, b.value,
                    [mk("ne", sym("p2"), const(0))], Equiv(positive=lambda t: t in (sym("maxwidth"),), samples={sym("maxwidth"): (0.3, 3), sym("r"): (0.2, 6), sym("p1"): (-9, 9)}))
        else:
            b = c.run(c.specfunc("functions", "curve_%s%s" % (f, suffix)), cls=cls, args={"pars": pars}, attrs=attrs)
            c.equal("%s: parameters in format %s draw the documented curve" % (cls, f), where, a.value, b.value, facts, e)
    # canonical range
    r = c.run("BaseFunction.transform_parameters", cls=cls, args={"pars": pars, "in_format": const("internal"), "out_format": const("pwa")}, attrs=attrs)
    # rejected exactly when too wide
    for f in ("pwa", "mu_sigma_area"):
        for g in formats:
            if f == g:
                continue
            r = c.run("BaseFunction.transform_parameters", cls=cls, args={"pars": pars, "in_format": const(f), "out_format": const(g)}, attrs=attrs)
            wide = mk("lt", sym("maxwidth"), c.term("p1" if f == "pwa" else "p1 * " + FWHM, p1=sym("p1")))
            got = rejected(r, "SrMiseTransformationError")
            c.equal("%s: %s -> %s rejects exactly the peaks wider than the maximum" % (cls, f, g), where, ite(got, TRUE, FALSE), ite(wide, TRUE, FALSE),
                    [mk("lt", const(0), sym("p1"))], eq(f))


def rejected(r, cls):
    """Condition under which the function raises the class."""
    g = FALSE
    for x in r.r.raises:
        if r.excname(x) == cls:
            g = negate(conj(negate(g), negate(conj(*x.guard))))
    return g


def formats_rule(c, cls, ctor, n):
    """Unknown formats are refused, the defaults are honoured, the result is a new array."""
    attrs = instance(c, cls, **ctor)
    pars = sym("pars")
    fmts = attrs[(SELF, "parformats")]
    names = [x.a[0] for x in fmts.a]
    dd = dict((k.a[0], v.a[0]) for k, v in attrs[(SELF, "default_formats")].a)
    for fn in ("transform_parameters", "transform_derivatives"):
        f = c.p.func("BaseFunction." + fn)
        for i, o in (("nonsense", names[0]), (names[0], "nonsense")):
            r = c.run(f, cls=cls, args={"pars": pars, "in_format": const(i), "out_format": const(o)}, attrs=attrs)
            ok = not r.r.returns and r.r.raises and all(r.excname(x) == "ValueError" for x in r.r.raises)
            c.add("%s.%s refuses unknown formats (%s -> %s)" % (cls, fn, i, o), f.where(), "ok" if ok else ("bad" if r.r.returns else "?"), "exits: %s" % [x.kind for x in r.r.exits])
        for given, meaning in (("default_input", dd["default_input"]), ("default_output", dd["default_output"]), (None, None)):
            for pos in ("in_format", "out_format"):
                m = meaning or (dd["default_input"] if pos == "in_format" else dd["default_output"])
                other = "out_format" if pos == "in_format" else "in_format"
                for oth in names:
                    a = c.run(f, cls=cls, args={"pars": pars, pos: const(given), other: const(oth)}, attrs=attrs)
                    b = c.run(f, cls=cls, args={"pars": pars, pos: const(m), other: const(oth)}, attrs=attrs)
                    c.equal("%s.%s: %s %r means %r (with %s)" % (cls, fn, pos, given, m, oth), f.where(), a.outcome, b.outcome)
    f = c.p.func("BaseFunction.transform_parameters")
    for a in names:
        for b in names:
            r = c.run(f, cls=cls, args={"pars": pars, "in_format": const(a), "out_format": const(b)}, attrs=attrs)
            for x in r.r.returns:
                leaves = values(x.value)
                own = all(r.i.kind.get(v) is not None and v.op == "ref" or v.op not in ("sym", "attr", "idx", "ref") for v in leaves)
                shared = [v for v in leaves if v is pars or v.op in ("attr", "idx") or v.op == "call" and v.a[0] in ("numpy.asarray", "numpy.asanyarray")]
                c.add("%s: %s -> %s returns storage of its own" % (cls, a, b), x.where, "bad" if shared else ("ok" if own else "?"), "returns %s" % [show(v) for v in leaves])
            stores = [ev for ev in r.r.events if ev.kind in ("setitem", "mutcall", "aug") and getattr(ev, "base", getattr(ev, "recv", None)) is pars]
            c.add("%s: %s -> %s leaves the caller's parameters alone" % (cls, a, b), stores[0].where if stores else f.where(), "bad" if stores else "ok", "stores into the argument")


def values(t):
    if t.op == "ite":
        return values(t.a[1]) + values(t.a[2])
    return [t]


def check(c):
    for cls, suf in PEAKS.items():
        c.attempt(cls, peak, c, cls, suf)
    mw = {"maxwidth": sym("maxwidth")}
    for cls, ctor, n in (("Gaussian", mw, 3), ("GaussianOverR", mw, 3), ("NanoSpherical", {}, 2), ("Polynomial", {"degree": const(2)}, 3)):
        c.attempt(cls, formats_rule, c, cls, ctor, n)
    c.attempt("NanoSpherical", baseline, c)
    return c.finish(EXPL, ("peak widths and areas of canonical parameters are positive",), minimum=20)


def baseline(c):
    """Canonical parameters of the sphere baseline draw the same curve."""
    attrs = instance(c, "NanoSpherical")
    pars = mk("list", sym("p0"), sym("p1"))
    cfg = Config(pure=("searchsorted",))
    a = c.run(c.specfunc("functions", "value_of"), cls="NanoSpherical", args={"pars": pars, "f": const("internal")}, attrs=attrs, config=cfg)
    b = c.run("NanoSpherical._valueraw", cls="NanoSpherical", args={"pars": pars}, attrs=attrs, config=cfg)
    c.equal("NanoSpherical: canonical parameters draw the same curve", b.f.where(), a.value, b.value, [mk("ne", sym("p0"), const(0)), mk("ne", sym("p1"), const(0))])
    r = c.run(c.specfunc("functions", "roundtrip"), cls="NanoSpherical", args={"pars": pars, "f": const("internal"), "g": const("internal")}, attrs=attrs)
    e = Equiv()
    for k in range(2):
        c.equal("NanoSpherical: canonical parameter %d is kept" % k, b.f.where(), e.prep(mk("idx", r.value, const(k))), sym("p%d" % k),
                [mk("lt", const(0), sym("p0")), mk("lt", const(0), sym("p1"))], e)
