"""C16: clustering of data."""
import itertools

from sa.arrays import follows
from sa.check import *
from sa.terms import *

EXPL = """Clustering is carried out on a few points whose coordinates are unknown, for every order of their values and every arrangement of their distances that changes what must happen; each step is compared with
the rule: the next lower point outside all clusters joins the nearest cluster if it is within the resolution, else makes its own. Questions to given clusters are compared with their definitions."""


def xs(n):
    return [sym("x%d" % k) for k in range(n)]


def ys(n):
    return [sym("y%d" % k) for k in range(n)]


def ascending(n):
    return [mk("lt", a, b) for a, b in zip(xs(n), xs(n)[1:])] + [mk("le", const(0), sym("res"))]


def sub(a, b):
    return mk("sub", a, b)


def cases(n, order):
    """(facts, expected steps) for every arrangement that matters; order: points by falling value."""
    x = xs(n)

    def run(asked):
        """The rule, with the answers to its first questions given; asks another one by raising."""
        facts = ascending(n)
        answers = list(asked)

        def true(c):
            r = follows(c, facts)
            if r is not None:
                return r
            if not answers:
                raise LookupError
            a = answers.pop(0)
            facts.append(c if a else negate(c))
            return a
        clusters = [[order[0], order[0]]]
        out = [[list(c) for c in clusters]]
        for p in order[1:]:
            if any(a <= p <= b for a, b in clusters):
                continue
            left = [k for k, (a, b) in enumerate(clusters) if b < p]
            right = [k for k, (a, b) in enumerate(clusters) if a > p]
            dl = sub(x[p], x[clusters[left[-1]][1]]) if left else None
            dr = sub(x[clusters[right[0]][0]], x[p]) if right else None
            useleft = dr is None or dl is not None and true(mk("lt", dl, dr))
            k, d = (left[-1], dl) if useleft else (right[0], dr)
            if true(mk("le", d, sym("res"))):
                clusters[k][1 if useleft else 0] = p
            else:
                k = k + 1 if useleft else k
                clusters.insert(k, [p, p])
            out.append([[list(c) for c in clusters], k, p])
        return facts, out

    def go(asked):
        try:
            yield run(asked)
        except LookupError:
            for a in (True, False):
                yield from go(asked + [a])
    return go([])


def term(v):
    return mk("list", *[term(x) for x in v]) if isinstance(v, (list, tuple)) else v if isinstance(v, T) else const(v)


def heap(c, n, **more):
    h = Heap(c.p)
    a = {k: h.arr(k, v) for k, v in (("x", xs(n)), ("y", ys(n)))}
    a["res"] = sym("res")
    for k, v in more.items():
        a[k] = table(h, k, v) if isinstance(v, list) else v
    return h, a


def table(h, name, v):
    return h.list(name, [table(h, name + "_%d" % k, x) if isinstance(x, list) else x if isinstance(x, T) else const(x) for k, x in enumerate(v)])


def pair(c, name, where, n, driver, facts, expected, **more):
    h, a = heap(c, n, **more)
    cf = Config(accidents=False, loops=n + 3, text=True, arrays=True)
    r = c.run(c.specfunc("clustering", driver), config=cf, heap=h, args=a, guard=facts)
    return c.equal(name, where, r.outcome, term(expected), facts, Equiv(narrow=True))


def fmt(facts):
    return " and ".join(show(f) for f in facts)


def stepping(c, n):
    where = c.p.func("DataClusters.__next__").where()
    for order in itertools.permutations(range(n)):
        falling = [mk("lt", sym("y%d" % b), sym("y%d" % a)) for a, b in zip(order, order[1:])]
        for facts, out in cases(n, order):
            name = "%s%s" % ("".join(map(str, order)), ", " + fmt(facts[n:]) if facts[n:] else "")
            last = out[-1][0] if len(out) > 1 else out[0]
            pair(c, "each step of clustering, falling " + name, where, n, "steps", facts + falling, out + [last])
            pair(c, "clustering at once and again, falling " + name, where, n, "whole", facts + falling, [last, out[0], last])


def partitions(n):
    """Disjoint ascending index ranges."""
    def go(lo):
        yield []
        for a in range(lo, n):
            for b in range(a, n):
                for rest in go(b + 1):
                    yield [[a, b]] + rest
    return [p for p in go(0) if p]


def questions(c, n):
    f = lambda m: c.p.func("DataClusters." + m).where()
    x, y = xs(n), ys(n)
    up = ascending(n) + [mk("lt", a, b) for a, b in zip(y, y[1:])]
    for cl in partitions(n):
        tag = " ".join("%d-%d" % tuple(r) for r in cl)
        free = [(cl[k - 1][1] + 1 if k else 0, cl[k + 1][0] - 1 if k + 1 < len(cl) else n - 1) for k in range(len(cl))]
        pair(c, "full clusters: " + tag, f("cluster_is_full"), n, "full", up, [list(r) == list(g) for r, g in zip(cl, free)], clusters=cl)
        groups = []
        for k in range(len(cl)):
            if k and cl[k - 1][1] + 1 == cl[k][0]:
                groups[-1].append(k)
            else:
                groups.append([k])
        joined = [[cl[g[0]][0], cl[g[-1]][1]] for g in groups]
        groups = [g for g in groups if len(g) > 1]
        pair(c, "groups of adjacent clusters: " + tag, f("find_adjacent_clusters"), n, "adjacent", up, groups, clusters=cl)
        pair(c, "adjacent clusters combined: " + tag, f("combine_clusters"), n, "joined", up, joined, clusters=cl)
        pair(c, "points of each cluster: " + tag, f("cut"), n, "cuts", up, [[x[k] for k in range(a, b + 1)] for a, b in cl], clusters=cl)
        mid = lambda v, a, b: v[a] if a == b else mk("div", mk("add", v[a], v[b]), const(2))
        ends = []
        for a, b in cl:
            for p in ((max(a - 1, 0), a), (b, min(b + 1, n - 1))):
                if p not in ends:
                    ends.append(p)
        ends.sort()
        ends = [[mid(x, *p), mid(y, *p)] for p in ends]
        if len(cl) > 1 or cl[0][0] != cl[0][1] or n > 1:
            pair(c, "boundaries of the clusters: " + tag, f("cluster_boundaries"), n, "edges", up, ends, clusters=cl)
        inside = [k for k in range(n) if any(a <= k <= b for a, b in cl)]
        pair(c, "points of a cluster are nearest to it: " + tag, f("find_nearest_cluster"), n, "near", up, [[[j for j, (a, b) in enumerate(cl) if a <= k <= b][0], 0.0] for k in inside], clusters=cl, points=inside)
        for k in [k for k in range(n) if k not in inside]:
            left = [j for j, (a, b) in enumerate(cl) if b < k]
            right = [j for j, (a, b) in enumerate(cl) if a > k]
            dl = sub(x[k], x[cl[left[-1]][1]]) if left else None
            dr = sub(x[cl[right[0]][0]], x[k]) if right else None
            for side in ((True, False) if left and right else (bool(left),)):
                fact = [] if not (left and right) else [mk("lt", dl, dr) if side else mk("lt", dr, dl)]
                if fact and follows(fact[0], up) is False:
                    continue
                want = [left[-1], dl] if side else [right[0], sub(x[k], x[cl[right[0]][0]])]
                pair(c, "nearest cluster: %s from point %d%s" % (tag, k, ", " + fmt(fact) if fact else ""), f("find_nearest_cluster"), n, "near", up + fact, [want], clusters=cl, points=[k])


def coordinate(c, n):
    """The cluster nearest to a coordinate is that nearest to the nearest point."""
    x = xs(n)
    at = sym("at")
    where = c.p.func("DataClusters.find_nearest_cluster2").where()
    places = [("before all", [mk("lt", at, x[0])], 0), ("after all", [mk("lt", x[-1], at)], n - 1)]
    for k in range(n):
        places.append(("at %d" % k, [mk("eq", at, x[k])], k))
        if k + 1 < n:
            between = [mk("lt", x[k], at), mk("lt", at, x[k + 1])]
            near = mk("lt", sub(at, x[k]), sub(x[k + 1], at))
            far = mk("lt", sub(x[k + 1], at), sub(at, x[k]))
            places += [("nearer to %d than to %d" % (k, k + 1), between + [near], k), ("nearer to %d than to %d" % (k + 1, k), between + [far], k + 1)]
    for cl in partitions(n):
        tag = " ".join("%d-%d" % tuple(r) for r in cl)
        for name, facts, k in places:
            hit = [j for j, (a, b) in enumerate(cl) if a <= k <= b]
            if not hit and any(b < k for a, b in cl) and any(a > k for a, b in cl):
                continue        # which side is nearer is asked elsewhere
            if hit:
                want = [hit[0], 0.0]
            else:
                left = [j for j, (a, b) in enumerate(cl) if b < k]
                j = left[-1] if left else 0
                want = [j, sub(x[k], x[cl[j][1 if left else 0]])]
            pair(c, "cluster nearest to a coordinate: %s, %s" % (tag, name), where, n, "nearest", ascending(n) + facts, want, clusters=cl, at=at)


def misuse(c, n):
    where = c.p.func("DataClusters.combine_clusters").where()
    up = ascending(n)
    for tag, cl, groups, want in [("no groups", [[0, 0], [1, 1]], [], [[0, 0], [1, 1]]),
                                  ("one of two pairs", [[0, 0], [1, 1], [2, 2], [3, 3]], [[2, 3]], [[0, 0], [1, 1], [2, 3]]),
                                  ("two pairs", [[0, 0], [1, 1], [2, 2], [3, 3]], [[0, 1], [2, 3]], [[0, 1], [2, 3]]),
                                  ("three", [[0, 0], [1, 2], [3, 3]], [[0, 1, 2]], [[0, 3]]),
                                  ("the last pair after others", [[0, 0], [2, 2], [3, 3]], [[1, 2]], [[0, 0], [2, 3]]),
                                  ("three and two of five", [[0, 0], [1, 1], [2, 2], [3, 3], [4, 4]], [[0, 1, 2], [3, 4]], [[0, 2], [3, 4]]),
                                  ("two and three of five", [[0, 0], [1, 1], [2, 2], [3, 3], [4, 4]], [[0, 1], [2, 3, 4]], [[0, 1], [2, 4]]),
                                  ("a gap between points", [[0, 0], [2, 2], [3, 3]], [[0, 1]], None),
                                  ("a gap between points, later", [[0, 0], [1, 1], [2, 2], [4, 4]], [[0, 1], [2, 3]], None),
                                  ("a gap between clusters", [[0, 0], [1, 1], [2, 2]], [[0, 2]], None),
                                  ("a falling order", [[0, 0], [1, 1], [2, 2]], [[1, 0, 2]], None),
                                  ("a cluster twice", [[0, 0], [1, 1], [2, 2]], [[0, 1], [1, 2]], None),
                                  ("a cluster twice in one", [[0, 0], [1, 1], [2, 2]], [[0, 0]], None)]:
        pair(c, "combining %s" % tag, where, 5, "combined", ascending(5), ["refused", cl] if want is None else want, clusters=cl, groups=groups)
    where = c.p.func("DataClusters._setdata").where()
    for tag, x, y, facts, want in [("lengths differ", 3, 2, ascending(3), "refused"), ("negative resolution", 3, 3, [mk("lt", sym("res"), const(0))], "refused"), ("zero resolution", 3, 3, [mk("eq", sym("res"), const(0))] + ascending(3), "accepted")]:
        h = Heap(c.p)
        a = dict(x=h.arr("x", xs(x)), y=h.arr("y", ys(y)), res=sym("res"))
        facts = facts + [mk("lt", p, q) for p, q in zip(ys(y), ys(y)[1:])]
        r = c.run(c.specfunc("clustering", "refused"), config=Config(accidents=False, loops=4, text=True, arrays=True), heap=h, args=a, guard=facts)
        c.equal("data to cluster: " + tag, where, r.outcome, const(want), facts, Equiv(narrow=True))


def check(c):
    N = 5 if c.tier == "thorough" else 4
    for n in range(1, N + 1):
        c.attempt("steps %d" % n, stepping, c, n)
    c.attempt("questions", questions, c, 5 if c.tier == "thorough" else 4)
    c.attempt("coordinates", coordinate, c, 4 if c.tier == "thorough" else 3)
    c.attempt("misuse", misuse, c, 4)
    return c.finish(EXPL, ("coordinates ascend, values differ",), minimum=30)
