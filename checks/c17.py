"""C17: joining clusters."""
import itertools

from sa.check import *
from .c06 import world

EXPL = """Two clusters on known arrays of unknown numbers are joined, for every arrangement of their slices, number of peaks and order of the positions of the peaks, with equal and unequal data, criteria and baselines;
what the joined cluster shows, and what both clusters show after it was changed, is compared with the rule, written down directly. Scaling is an unknown change of free parameters."""
N = 5


def setup(c, n, n2, base, base2, removable):
    masks = [(True, True), (True, False), (False, True), (True, True)][:n + n2]
    h = world(c, masks + [(True, True)] * 2)
    del h.contents[SELF]
    any_ = c.spec("region").defs["AnyFunction"][1]
    for k in range(n + n2 + 2):
        h.types[sym("owner%d" % k)] = any_
        h.attrs[(sym("owner%d" % k), "parameterdict")] = mk("dict", *[(const(("position", "width")[j]), const(j)) for j in range(2)])
        h.types[h.parts[k]] = c.p.cls("Peak" if k < n + n2 else "Baseline")
        h.attrs[(h.parts[k], "removable")] = const(removable[k] if k < n + n2 else True)
    for p in h.parts:
        for m in ("pars", "free"):
            t = h.attrs[(p, m)]
            h.contents[t] = mk("call", "numpy.array", (h.contents[t],), ())
    f = [h.obj("func%d" % k, any_, npars=const(2), parameterdict=mk("dict", (const("position"), const(0)), (const("width"), const(1)))) for k in range(3)]
    if base2 == "equal":                # another baseline of the same function and parameters
        h.attrs[(h.parts[-1], "_owner")] = h.attrs[(h.parts[-2], "_owner")]
        h.contents[h.attrs[(h.parts[-1], "pars")]] = h.contents[h.attrs[(h.parts[-2], "pars")]]
    a = dict(model=h.list("peaks", h.parts[:n]), model2=h.list("peaks2", h.parts[n:n + n2]), baseline=h.parts[-2] if base else NONE, baseline2=h.parts[-2] if base2 == "same" else h.parts[-1] if base2 else NONE)
    for k in ("r", "y", "dy"):
        a[k] = h.arr(k, [sym("%s%d" % (k, j)) for j in range(N)])
        a[k + "2"] = a[k]
    a["funcs"] = h.list("funcs", [f[0], f[1]])
    a["funcs2"] = h.list("funcs2", [f[1], f[2]])
    return h, a, f


def join(c, name, n, n2, cuts, removable=(True,) * 4, order=None, facts=(), base=None, base2=None, other=False, swap=False, refused=False, apart=None):
    where = c.p.func("ModelCluster.join_adjacent").where()
    c.spec("region")
    h, a, f = setup(c, n, n2, base, base2, removable)
    if apart:
        a[apart + "2"] = h.arr(apart + "two", [sym("%s%d" % (apart, j)) for j in range(N)])
    up = [mk("lt", sym("r%d" % j), sym("r%d" % (j + 1))) for j in range(N - 1)]
    facts = up + list(facts)
    cf = Config(accidents=False, arrays=True, stubs={"Peaks.match_at": c.specfunc("joining", "matched")})
    s = [mk("slice", const(p), const(q), NONE) for p, q in cuts]
    r = c.run(c.specfunc("joining", "joined"), config=cf, heap=h, args=dict(a, cut=s[0], cut2=s[1], swap=const(swap), other=const(other)), guard=facts)
    fs = [f[1], f[2], f[0]] if swap else f
    e = c.run(c.specfunc("joining", "joined_rule"), config=cf, heap=h, args=dict(a, lo=const(cuts[0][0]), hi=const(cuts[0][1]), lo2=const(cuts[1][0]), hi2=const(cuts[1][1]), other=const(other),
              order=h.list("order", [const(k) for k in (order or range(n + n2))]), both=h.list("both", fs), refused=const(refused)), guard=facts)
    return c.equal(name, where, r.outcome, e.outcome, facts, Equiv(vocab=("oracle",), narrow=True))


def conditions(c):
    near = [(0, 2), (2, 4)]
    for n, n2 in ((0, 0), (1, 1)):
        up = [mk("lt", sym("q0_0"), sym("q1_0"))] if n and n2 else []
        for k in ("r", "y", "dy"):
            join(c, "clusters on different %s are refused, %d peaks" % (k, n), n, n2, near, apart=k, refused=True, facts=up)
        join(c, "clusters with different criteria are refused, %d peaks" % n, n, n2, near, other=True, refused=True, facts=up)
        for b, b2, ok in ((True, None, False), (None, "other", False), (True, "other", False), (True, "equal", True), (True, "same", True), (None, None, True)):
            differ = [mk("ne", sym("q%d_0" % (n + n2)), sym("q%d_0" % (n + n2 + 1)))] if b2 == "other" and b else []
            join(c, "clusters with baselines %s and %s are %s, %d peaks" % (b, b2, "joined" if ok else "refused", n), n, n2, near, base=b, base2=b2, refused=not ok, facts=up + differ)
        for cuts in itertools.product([(0, 1), (0, 2), (1, 2), (1, 3), (2, 4), (2, 5), (3, 4), (3, 5)], repeat=2):
            (p, q), (s, t) = cuts
            for swap in (False, True):
                join(c, "clusters %d-%d and %d-%d%s, %d peaks" % (p, q, s, t, " swapped" if swap else "", n), n, n2, cuts, refused=not (q == s or t == p), order=None, facts=up, swap=swap)


def peaks(c, n, n2, cuts, swap):
    """Every order of the peaks of both."""
    for p in itertools.permutations(range(n + n2)):
        if swap and n + n2 > 3:
            continue
        facts = [mk("lt", sym("q%d_0" % i), sym("q%d_0" % j)) for i, j in zip(p, p[1:])]
        join(c, "peaks %d and %d in order %s, %s%s" % (n, n2, "".join(map(str, p)), cuts, " swapped" if swap else ""), n, n2, cuts, order=p if n and n2 else None, facts=facts, swap=swap)


def border(c):
    """Peaks exactly midway."""
    mid = mk("mul", const(0.5), mk("add", sym("r1"), sym("r2")))
    q = [sym("q%d_0" % k) for k in range(3)]
    for rem in itertools.product((True, False), repeat=2):
        facts = [mk("eq", q[0], mid), mk("eq", q[1], mid)]
        join(c, "two peaks at the border, %s" % (rem,), 1, 1, [(0, 2), (2, 4)], removable=rem + (True,), order=[0] if rem[1] else [0, 1], facts=facts)
    for k in (0, 1):
        facts = [mk("eq", q[k], mid), mk("lt", q[0], q[1])]
        join(c, "one peak at the border, %d" % k, 1, 1, [(0, 2), (2, 4)], facts=facts)


def check(c):
    c.attempt("conditions", conditions, c)
    for n, n2 in ((0, 1), (1, 0), (0, 2), (2, 0), (1, 1), (1, 2), (2, 1)) + (((2, 2),) if c.tier == "thorough" else ()):
        for cuts in ([(0, 2), (2, 4)], [(1, 3), (0, 1)]):
            for swap in (False, True):
                c.attempt("peaks", peaks, c, n, n2, cuts, swap)
    c.attempt("border", border, c)
    return c.finish(EXPL, ("scaling changes only free parameters",), minimum=15)
