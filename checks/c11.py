"""C11: lists of peaks are changed only as allowed."""
import itertools

from sa.check import *
from .c06 import hookfor, world

EXPL = """Scaling one peak, scaling several to a height, sorting, replacing and deleting peaks are driven on known lists (one to three peaks, all masks of fixed parameters, all patterns of removable peaks)
with an unknown peak function that may refuse to scale, and the same rules are written down directly. The result and every peak (function, parameters, fixed flags, removable flag) in order afterwards are compared case by case,
and the state at every refusal with the state before. A difference is reported only when the two value terms are definitely unequal."""


def setup(c, masks, removable=None, names=("position", "width", "area")):
    h = world(c, masks)
    any_ = c.spec("peaklist").defs["AnyPeak"][1]
    for k, m in enumerate(masks):
        h.types[h.parts[k]] = c.p.cls("Peak")
        h.types[sym("owner%d" % k)] = any_
        h.attrs[(sym("owner%d" % k), "parameterdict")] = mk("dict", *[(const(names[j]), const(j)) for j in range(len(m))])
        h.attrs[(h.parts[k], "removable")] = const(removable[k] if removable else True)
    del h.contents[SELF]
    return h


def pair(c, name, where, h, driver, args, extra=None, facts=(), **stubs):
    return pair2(c, name, where, h, driver, driver + "_rule", args, dict(args, **(extra or {})), facts, **stubs)


def pair2(c, name, where, h, driver, rule, args, wanted, facts=(), **stubs):
    cf = Config(hook=hookfor(h), accidents=False, stubs={k: c.specfunc("peaklist", v) for k, v in stubs.items()})
    r = c.run(c.specfunc("peaklist", driver), config=cf, heap=h, args=args, guard=facts)
    s = c.run(c.specfunc("peaklist", rule), config=cf, heap=h, args=wanted, guard=facts)
    for x in r.r.raises:
        for t in (h.keep if hasattr(h, "keep") else ()):
            c.add("a refusal changes nothing: " + name, x.where, "ok" if r.i.deep(t, x.state) is r.i.deep(h.contents[t], x.state) else "bad", show(r.i.deep(t, x.state)))
    return c.equal(name, where, r.outcome, s.outcome, list(facts), Equiv(vocab=("oracle", "CURVE")))


def one(c, mask):
    h = setup(c, [mask])
    pair(c, "scaling a peak changes only free parameters or nothing: free %s" % (mask,), c.p.func("Peak.scale_at").where(), h, "scaled", dict(p=h.parts[0]))


def some(c, masks):
    h = setup(c, masks)
    model = h.list("peaks", h.parts, "Peaks")
    pair(c, "matching scales all peaks that can be scaled equally: %d peaks" % len(masks), c.p.func("Peaks.match_at").where(), h, "matched", dict(model=model), **{"Peak.scale_at": "one"})
    if len(masks) == 1:
        pair(c, "matching that fails leaves the peaks as they were: %d peaks" % len(masks), c.p.func("Peaks.match_at").where(), h, "failed", dict(model=model), **{"Peak.scale_at": "failing"})


def order(c, n):
    h = setup(c, [(True, True)] * n)
    model = h.list("peaks", h.parts, "Peaks")
    for j, key in enumerate(("position", "width")):
        facts = [mk("ne", sym("q%d_%d" % (a, j)), sym("q%d_%d" % (b, j))) for a in range(n) for b in range(a)]
        for rev in (TRUE, FALSE):
            pair(c, "sorting %d peaks by %s%s" % (n, key, " in reverse" if rev is TRUE else ""), c.p.func("Peaks.sort").where(), h, "sorting", dict(model=model, key=const(key), reverse=rev), facts=facts)
        pair(c, "indices sorting %d peaks by %s" % (n, key), c.p.func("Peaks.argsort").where(), h, "indices", dict(model=model, key=const(key)), facts=facts)


def members(c, removable):
    """Replacing and deleting peaks of a cluster."""
    n = len(removable)
    h = setup(c, [(True, True)] * (n + 1), list(removable) + [True])
    model = h.list("peaks", h.parts[:n], "Peaks")
    h.keep = [model]
    new = h.list("new", h.parts[n:], "Peaks")
    mc = h.obj("cluster", "ModelCluster", model=model)
    facts = [mk("ne", sym("q%d_0" % a), sym("q%d_0" % b)) for a in range(n + 1) for b in range(a)]
    where = c.p.func("ModelCluster.replacepeaks").where()
    for lo in range(n + 1):
        for hi in range(lo, n + 1):
            kept = [k for k in range(n) if not lo <= k < hi]
            if len(kept) > 2:
                continue
            fixed = const(any(not removable[k] for k in range(lo, hi)))
            extra = dict(fixed=fixed, kept=h.list("kept", [const(k) for k in kept]))
            tag = "%d:%d of %s" % (lo, hi, "".join("01"[x] for x in removable))
            pair(c, "peaks %s are replaced only when removable" % tag, where, h, "replaced", dict(mc=mc, new=new, where=mk("slice", const(lo), const(hi), NONE)), extra, facts)
            if hi == lo + 1:
                pair2(c, "peak %s is deleted only when removable" % tag, where, h, "deleted", "replaced_rule", dict(mc=mc, k=const(lo)),
                      dict(extra, mc=mc, new=mk("list"), where=NONE), facts)


def check(c):
    for n in (1, 2, 3):
        for rem in itertools.product((True, False), repeat=n):
            c.attempt("members", members, c, rem)
    for m in itertools.product((True, False), repeat=2):
        c.attempt("one", one, c, m)
    for n in (1, 2, 3):
        c.attempt("match", some, c, [(True,)] * n)
    for n in (1, 2, 3):
        c.attempt("order", order, c, n)
    return c.finish(EXPL, ("the parameters sorted by are distinct",), minimum=20)
