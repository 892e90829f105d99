"""C03: the derivative matrix of a conversion is the derivative of that conversion."""
from sa.check import *
from sa.check import derivative
from checks.c02 import FWHM, canonical, samples

EXPL = ("For every function class and every pair of formats the converted parameters and the derivative matrix are evaluated into value terms; entry "
        "[i, j] of the matrix is compared with the symbolic derivative of converted parameter i with respect to given parameter j.")


def entry(e, m, i, j):
    """m[i, j] of a matrix term in whichever way it was written."""
    a = e.prep(mk("idx", m, mk("tuple", const(i), const(j))))
    return a


def one(c, cls, ctor, n, facts_of, tag="", eqv=None):
    attrs = instance(c, cls, **ctor)
    pars = mk("list", *[sym("p%d" % k) for k in range(n)])
    fm = attrs.get((SELF, "parformats"))
    if fm is None or fm.op != "list":
        raise AnalysisBroken("%s declares no formats" % cls)
    formats = [x.a[0] for x in fm.a]
    for f in formats:
        facts = facts_of(f)
        for g in formats:
            e = eqv(f) if eqv else Equiv()
            kw = {"pars": pars, "in_format": const(f), "out_format": const(g)}
            D = c.run("BaseFunction.transform_derivatives", cls=cls, args=kw, attrs=attrs)
            raw = c.p.cls(cls).find("_transform_derivativesraw") or D.f
            where = raw.where()
            name = "%s%s: %s -> %s" % (cls, tag, f, g)
            if not D.r.returns:
                c.add(name + " has a derivative matrix", where, "bad", "no normal exit")
                continue
            m = D.value
            if f == g:
                V = pars          # conversions between equal formats only canonicalise
            else:
                V = c.run("BaseFunction.transform_parameters", cls=cls, args=kw, attrs=attrs).value
            bad = [x for x in D.r.raises if e_feasible(D, x, facts, e)]
            for x in bad:
                c.add(name + " is defined on canonical parameters", x.where, "?", "may raise %s" % D.excname(x))
            for i in range(n):
                v = e.prep(mk("idx", V, const(i)))
                for j in range(n):
                    d = derivative(e, v, sym("p%d" % j))
                    got = matrix_entry(e, m, i, j)
                    if d is None or got is None:
                        c.add("%s derivative [%d, %d]" % (name, i, j), where, "?", "not expressible: %s" % show(m, 5))
                        continue
                    c.equal("%s derivative [%d, %d]" % (name, i, j), where, got, d, facts, e)


def e_feasible(D, x, facts, e):
    return D.excname(x) not in ("SrMiseTransformationError",)


def matrix_entry(e, m, i, j):
    """Entry of a matrix built by identity/zeros/array and element stores."""
    m = e.prep(m)
    if m.op == "ite":
        a, b = matrix_entry(e, m.a[1], i, j), matrix_entry(e, m.a[2], i, j)
        return None if a is None or b is None else ite(m.a[0], a, b)
    if m.op == "upd":
        k = m.a[1]
        if k.op == "tuple" and len(k.a) == 2 and all(x.op == "const" and isinstance(x.a[0], int) for x in k.a):
            if (k.a[0].a[0], k.a[1].a[0]) == (i, j):
                return m.a[2]
            return matrix_entry(e, m.a[0], i, j)
        if k.op == "const" and isinstance(k.a[0], int):
            if k.a[0] == i:
                return row_entry(e, m.a[2], j)
            return matrix_entry(e, m.a[0], i, j)
        return None
    if m.op == "call" and m.a[0] in ("numpy.eye", "numpy.identity"):
        return const(1.0 if i == j else 0.0)
    if m.op == "call" and m.a[0] in ("numpy.zeros", "numpy.ones"):
        return const(0.0 if m.a[0].endswith("zeros") else 1.0)
    if m.op == "call" and m.a[0] in ("numpy.array", "numpy.diag", "numpy.matrix", "numpy.copy") and m.a[1]:
        x = m.a[1][0]
        if m.a[0] == "numpy.diag":
            return (e.prep(mk("idx", x, const(i))) if i == j else const(0.0)) if x.op in ("list", "tuple") else None
        return matrix_entry(e, x, i, j)
    if m.op in ("list", "tuple"):
        return row_entry(e, m.a[i], j) if i < len(m.a) else None
    if m.op in ("mul", "div"):
        for x, y in (m.a, m.a[::-1]):
            if matrixlike(x) and not matrixlike(y) and (m.op == "mul" or x is m.a[0]):
                r = matrix_entry(e, x, i, j)
                return None if r is None else mk(m.op, r, y)
    return None


def matrixlike(x):
    return x.op in ("upd", "list") or x.op == "call" and x.a[0] in ("numpy.eye", "numpy.identity", "numpy.zeros", "numpy.ones", "numpy.array", "numpy.diag")


def row_entry(e, r, j):
    r = e.prep(mk("idx", r, const(j)))
    return r


def check(c):
    mw = {"maxwidth": sym("maxwidth")}

    def eqv(f):
        return Equiv(positive=lambda t: t is sym("maxwidth"), samples=samples(f))
    for cls in ("Gaussian", "GaussianOverR"):
        c.attempt(cls, one, c, cls, mw, 3, canonical_for(c), "", eqv)
    c.attempt("NanoSpherical", one, c, "NanoSpherical", {}, 2, lambda f: [mk("lt", const(0), sym("p0")), mk("lt", const(0), sym("p1"))])
    for d in range(-1, 4):
        c.attempt("Polynomial", one, c, "Polynomial", {"degree": const(d)}, d + 1, lambda f: [], " of degree %d" % d)
    return c.finish(EXPL, ("parameters are canonical: positive area, width between 0 and the maximum",), minimum=20)


def canonical_for(c):
    return lambda f: canonical(c, f)
