"""C18: greedy change of models."""
import itertools

from sa.check import *
from .c06 import world

EXPL = """Augmenting and pruning are carried out on known lists of peaks, for every order of the qualities of the models they have to compare, with fits that succeed, fail or drop a peak, and with criteria for which higher and lower is better.
The model kept is compared with the one the rule gives, written down directly from the order. Fits give unknown values for the free parameters, qualities are unknown numbers depending on the model, the data fitted and the parameters counted elsewhere."""
N = 2


def setup(c, free, removable, base, rejected, dropped):
    n = len(free)
    masks = [(False,) + f for f in free] + [(True, True)]
    h = world(c, masks)
    c.spec("region")
    del h.contents[SELF]
    any_ = c.spec("greedy").defs["Curve"][1]
    for k in range(n + 1):
        h.types[sym("owner%d" % k)] = any_
        h.attrs[(sym("owner%d" % k), "parameterdict")] = mk("dict", *[(const(("position", "width", "area")[j]), const(j)) for j in range(len(masks[k]))])
        h.types[h.parts[k]] = c.p.cls("Peak" if k < n else "Baseline")
        h.attrs[(h.parts[k], "removable")] = const(removable[k] if k < n else True)
        for m in ("pars", "free"):
            t = h.attrs[(h.parts[k], m)]
            xs = list(h.contents[t].a)
            if m == "pars" and k < n:
                xs[0] = const(2 ** k)
            h.contents[t] = mk("call", "numpy.array", (mk("list", *xs),), ())
    f = h.obj("func", any_, npars=const(2), parameterdict=mk("dict", (const("position"), const(0)), (const("width"), const(1))),
              rejected=mk("list", *[const(x) for x in rejected]), dropped=mk("list", *[mk("tuple", *[const(v) for v in x]) for x in dropped]))
    a = dict(baseline=h.parts[-1] if base else NONE, funcs=h.list("funcs", [f]))
    for k in ("r", "y", "dy"):
        a[k] = h.arr(k, [sym("%s%d" % (k, j)) for j in range(N)])
    return h, a


def config(c, decide=None):
    silent = c.specfunc("greedy", "silent")
    s = {"ModelCluster.fit": c.specfunc("greedy", "fitted")}
    for m in ("emit", "pushc", "popc", "pushr", "popr"):
        s["TracePeaks." + m] = silent
    return Config(accidents=False, arrays=True, loops=12, neutral=True, decide=decide, number=lambda t: t.a[0] in ("oracle.at", "oracle.fitted", "oracle.quality"), stubs=s)


def better(a, b, higher):
    return mk("lt", b, a) if higher else mk("lt", a, b)


def rankings(can, g, best, higher):
    """(facts, the one taken or None) for every order of the qualities, and a tie of the only one with the best so far."""
    for o in itertools.permutations(can):
        for at in (range(len(o) + 1) if len(o) < 3 else (0, len(o) - 1, len(o))):
            l = [g[k] for k in o[:at]] + [best] + [g[k] for k in o[at:]]
            yield [better(b, a, higher) for a, b in zip(l, l[1:])], o[-1] if at < len(o) else None, "".join(map(str, o[:at])) + "<" + "".join(map(str, o[at:]))
    if len(can) == 1:
        yield [mk("eq", g[can[0]], best)], None, "=%s" % can[0]


def possible(facts):
    """Whether facts of order contradict each other."""
    same = {}

    def rep(t):
        while t in same:
            t = same[t]
        return t
    for f in facts:
        if f.op == "eq" and rep(f.a[0]) is not rep(f.a[1]):
            same[rep(f.a[0])] = rep(f.a[1])
    edges = {(rep(f.a[0]), rep(f.a[1])) for f in facts if f.op == "lt"}
    nodes = {x for e in edges for x in e}
    while nodes:
        free = {x for x in nodes if not any(b is x and a in nodes for a, b in edges)}
        if not free:
            return False
        nodes -= free
    return True


def which(t):
    """The peaks in a model whose quality t is."""
    if t.op == "call" and t.a[0] == "oracle.quality" and t.a[1][0].op == "list":
        k = [x.a[0] for x in t.a[1][0].a if x.op == "list" and x.a]
        if len(k) == len(t.a[1][0].a) and all(x.op == "const" for x in k):
            return tuple(sorted(x.a[0] for x in k))
    return None


def unforeseen(facts, higher):
    """Models the rule does not compare are better than those it does."""
    seen = {which(x) for f in facts for x in f.a if isinstance(x, T)}

    def decide(f):
        a, b = map(which, f.a)
        if a is None or b is None or a == b or a in seen and b in seen:
            return None
        if f.op == "eq":
            return False
        return ((a not in seen, a) < (b not in seen, b)) == higher
    return decide


def compare(c, name, where, h, a, driver, rule, extra, facts):
    r = c.run(c.specfunc("greedy", driver), config=config(c, unforeseen(facts, a["higher"].a[0])), heap=h, args=a, guard=facts)
    e = c.run(c.specfunc("greedy", rule), config=config(c), heap=h, args=dict(a, **extra), guard=facts)
    return c.equal(name, where, r.outcome, e.outcome, facts, Equiv(vocab=("oracle",), narrow=True))


def augment(c, n, n2, base=False, higher=True, rejected=(), dropped=(), fixed=False, order=None):
    where = c.p.func("ModelCluster.augment").where()
    c.spec("region")
    names = order or range(n + n2)
    h, a = setup(c, [(True,)] * (n + n2), [not (fixed and k < n) for k in range(n + n2)], base, rejected, dropped)
    parts = [h.parts[k] for k in names]
    a.update(model=h.list("peaks", parts[:n]), other=h.list("others", parts[n:]))
    b = {k: v for k, v in a.items() if k != "dy"}

    def grade(path):
        return c.run(c.specfunc("greedy", "added_grade"), config=config(c), heap=h, args=dict(b, path=h.list("path%s" % (path,), [const(k) for k in path]))).outcome

    def go(path, facts, seen=""):
        rest = [k for k in range(n2) if k not in path]

        def done(facts, what):
            if not n and not path:
                return      # an empty model is fit by estimation
            compare(c, "augmenting %d peaks by %d: takes %s, %s%s%s" % (n, n2, path, seen, what, tag), where, h, dict(a, higher=const(higher)), "augmented", "augmented_rule", dict(path=h.list("path%s" % (path,), [const(k) for k in path])), facts)
        if not rest:
            return done(facts, "all")
        best = grade(path)
        g = {k: grade(path + (k,)) for k in rest}
        for more, k, what in rankings(rest, g, best, higher):
            if not possible(facts + more):
                continue
            if k is None:
                done(facts + more, "then none, " + what)
            else:
                go(path + (k,), facts + more, seen + what + " ")
    tag = "".join([", baseline" if base else "", "" if higher else ", lower is better", ", rejected %s" % (rejected,) if rejected else "", ", dropped %s" % (dropped,) if dropped else "", ", not removable" if fixed else "", ", order %s" % (order,) if order else ""])
    go((), [])


def prune(c, free, removable, base=False, higher=True, rejected=(), dropped=(), limit=None):
    where = c.p.func("ModelCluster.prune").where()
    c.spec("region")
    n = len(free)
    h, a = setup(c, free, removable, base, rejected, dropped)
    a.update(model=h.list("peaks", h.parts[:n]))
    b = {k: v for k, v in a.items() if k != "dy"}

    def ask(what, path, **k):
        return c.run(c.specfunc("greedy", what), config=config(c), heap=h, args=dict(b, path=h.list("path%s" % (path,), [const(j) for j in path]), **k)).outcome

    def go(path, facts, seen=""):
        present = [x.a[0] for x in ask("size_left", path).a]
        can = [j for j, k in enumerate(present) if removable[k.bit_length() - 1]]

        def done(facts, what):
            compare(c, "pruning %s: removes %s, %s%s%s" % ("".join(".x"[x] for x in removable), path, seen, what, tag), where, h, dict(a, higher=const(higher)), "pruned", "pruned_rule", dict(path=h.list("path%s" % (path,), [const(k) for k in path])), facts)
        if not can:
            return done(facts, "all")
        best = ask("left_grade", path)
        g = {k: ask("without_grade", path, k=const(k)) for k in can}
        for more, k, what in rankings(can, g, best, higher):
            if not possible(facts + more):
                continue
            if k is None:
                done(facts + more, "then none, " + what)
            elif what.index("<") == len(can) - 1 and len(can) > 0:     # every other removal is worse
                seen, was = seen + what + " ", seen
                path, old = path + (k,), path
                done(facts + more, "others worse")
                seen, path = was, old
            else:
                go(path + (k,), facts + more, seen + what + " ")
    tag = "".join([", baseline" if base else "", "" if higher else ", lower is better", ", rejected %s" % (rejected,) if rejected else "", ", dropped %s" % (dropped,) if dropped else ""])
    go((), [])


MIXED = [(True,), (True, False), (True, True)]


def check(c):
    deep = c.tier == "thorough"
    c.group = 40 if not deep else 150
    for n in (1, 2):
        for rem in itertools.product((True, False), repeat=n):
            for higher in (True, False):
                c.attempt("prune", prune, c, MIXED[:n], rem, base=n > 1, higher=higher)
    for n, n2 in ((0, 1), (1, 0), (2, 0), (1, 1), (0, 2), (1, 2), (2, 1)) + (((1, 3), (2, 2), (0, 3)) if deep else ()):
        for higher in (True, False):
            c.attempt("augment", augment, c, n, n2, base=n != n2, higher=higher, fixed=n2 == 1)
    for n, n2, order in ((1, 1, (1, 0)), (1, 2, (2, 1, 0)), (2, 1, (0, 2, 1)), (1, 2, (1, 2, 0))):
        c.attempt("augment", augment, c, n, n2, order=order)
    c.attempt("augment", augment, c, 1, 1, order=(1, 0), rejected=(3,))
    c.attempt("augment", augment, c, 2, 1, order=(0, 2, 1), rejected=(7,))
    for r in ((3,), (5,), (3, 5), (1, 3)):
        c.attempt("augment", augment, c, 1, 2, rejected=r)
    for d in (((3, 1),), ((5, 1),), ((7, 1),), ((7, 2),)):
        c.attempt("augment", augment, c, 1, 2, dropped=d)
    for rem in itertools.product((True, False), repeat=3):
        c.attempt("prune", prune, c, MIXED, rem)
    for r in ((1,), (2,), (3,), (3, 2), (3, 1)):
        c.attempt("prune", prune, c, MIXED[:2], (True, True), rejected=r)
    for d in (((1, 1),), ((2, 2),), ((1, 1), (2, 2))):
        c.attempt("prune", prune, c, MIXED[:2], (True, True), dropped=d)
    c.attempt("prune", prune, c, MIXED, (True, True, False), dropped=((6, 2),))
    c.attempt("prune", prune, c, MIXED, (True, True, False), dropped=((5, 1),))
    for r in ((6,), (2,), (6, 2), (1, 4)) if deep else ((6, 2), (1, 4)):
        c.attempt("prune", prune, c, MIXED, (True, r[0] != 1, True), rejected=r)
    for d in (((6, 4),), ((5, 1), (3, 2))) if deep else (((5, 1), (3, 2)),):
        c.attempt("prune", prune, c, MIXED, (True, True, True), dropped=d)
    for at in ((0,), (4,), (8,), (3,), (5,)) + (((0, 8), (4, 8), (0, 5), (3, 4)) if deep else ((0, 8),)):
        c.attempt("prune", prune, c, MIXED * 3, [k in at for k in range(9)], base=at == (4,))
    return c.finish(EXPL, ("the free parameters a fit finds and the quality of a model are unknown numbers", "qualities compared differ, except a last one"), minimum=40)
