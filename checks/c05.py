"""C05: fits are ordered by quality, and only comparable fits are compared."""
from sa.check import *

EXPL = ("Every comparison of two evaluated fits is evaluated into a value term for both senses of the statistic and compared with the ordering the rule demands; "
        "the exits for unevaluated fits and for fits judged by different methods must be refusals. The constructors fix the sense and the name of each method.")
OPS = ("lt", "le", "gt", "ge", "eq", "ne")


def check(c):
    c.attempt("ordering", ordering, c)
    c.attempt("methods", methods, c)
    return c.finish(EXPL, ("statistics are numbers",), minimum=10)


def evaluators(c):
    base = c.p.cls("ModelEvaluator")
    return c.p.subclasses(base, strict=True)


def ordering(c):
    me, other = SELF, sym("other")
    a, b = mk("attr", me, "stat"), mk("attr", other, "stat")
    for cls in evaluators(c):
        for op in OPS:
            f = cls.find("__%s__" % op)
            if f is None:
                c.add("%s defines comparison %s" % (cls.name, op), "-", "?", "no __%s__" % op)
                continue
            for higher in (True, False):
                attrs = {(me, "higher_is_better"): const(higher), (other, "higher_is_better"): const(higher)}
                r = c.run(f, cls=cls, attrs=attrs, types={other: cls})
                facts = [mk("eq", mk("attr", me, "method"), mk("attr", other, "method")), mk("isnot", a, NONE), mk("isnot", b, NONE)]
                rule = c.run(c.specfunc("evaluators", "better"), args={"op": const(op), "a": a, "b": b, "higher": const(higher)})
                out = truthy(r.outcome)
                c.equal("%s: %s orders by quality when %s statistics are better" % (cls.name, op, "higher" if higher else "lower"), f.where(), out, rule.value, facts)
                for tag, bad in (("of another method", [mk("ne", mk("attr", me, "method"), mk("attr", other, "method"))]),
                                 ("that was not evaluated (first)", facts[:1] + [mk("is", a, NONE), mk("isnot", b, NONE)]),
                                 ("that was not evaluated (second)", facts[:1] + [mk("isnot", a, NONE), mk("is", b, NONE)]),
                                 ("both not evaluated", facts[:1] + [mk("is", a, NONE), mk("is", b, NONE)])):
                    c.equal("%s: %s refuses a fit %s (%s)" % (cls.name, op, tag, higher), f.where(), refused(r), TRUE, bad)


def refused(r):
    out = FALSE
    for x in r.r.exits:
        if x.kind == "raise":
            out = negate(conj(negate(out), negate(conj(*x.guard))))
    return ite(out, TRUE, FALSE)


def truthy(t):
    if t.op == "ite":
        return ite(t.a[0], truthy(t.a[1]), truthy(t.a[2]))
    return t


def methods(c):
    names = {}
    for cls in evaluators(c):
        at = instance(c, cls.name)
        m, h = at.get((SELF, "method")), at.get((SELF, "higher_is_better"))
        w = cls.find("__init__").where()
        c.add("%s judges the lower information criterion the better" % cls.name, w, "ok" if h is FALSE else ("bad" if h is TRUE else "?"), "higher_is_better = %s" % (h and show(h)))
        if m is None or m.op != "const":
            c.add("%s has a name of its own" % cls.name, w, "?", "not constant")
        else:
            dup = names.get(m.a[0])
            c.add("%s has a name of its own" % cls.name, w, "bad" if dup else "ok", "shared with %s" % dup)
            names[m.a[0]] = cls.name
        s = at.get((SELF, "stat"))
        c.add("%s is not evaluated when constructed" % cls.name, w, "ok" if s is NONE else "bad" if s is not None and s.op == "const" else "?", "stat = %s" % (s and show(s)))
