"""C08: the covariance container reports, converts and refuses as documented."""
import itertools

from sa.check import *
from .c06 import hookfor, world

EXPL = ("Covariance objects are driven through their public methods on known models (all masks, up to the size bound) with an unknown matrix: stored entries, values, uncertainties, correlations, "
        "warnings, the effect of a change of format (G V G^T with the derivative matrix of each part) and refusals are compared with the rule, entry by entry.")
F, G = sym("in_format"), sym("out_format")


def setup(c, masks, full):
    h = world(c, masks)
    model = h.list("model", list(h.parts), "ModelParts")
    del h.contents[SELF]
    n = sum(len(m) for m in masks) if full else sum(x for m in masks for x in m)
    h.obj("cov")
    h.contents[sym("cov")] = square(n, "v")
    return h, model, n


def square(n, v):
    return mk("call", "numpy.array", (mk("list", *[mk("list", *[sym("%s%d_%d" % (v, i, j)) for j in range(n)]) for i in range(n)]),), ())


def cfg(h):
    base = hookfor(h)

    def hook(i, f, recv, args, kw, e, ev):
        name = f if isinstance(f, str) else f.name
        if recv is not None and recv.op == "sym" and recv.a[0].startswith("owner") and name in ("transform_derivatives", "transform_parameters"):
            a = dict(zip(("pars", "in_format", "out_format"), args))
            a.update(kw)
            n = len(h.masks[int(recv.a[0][5:])])
            got = i.deep(a["pars"])
            if got.op == "call" and got.a[0] == "numpy.array" and got.a[1]:
                got = got.a[1][0]
            fg = (a.get("in_format", NONE), a.get("out_format", NONE))
            i.snap(None, e)      # conversions can fail
            if name == "transform_parameters":
                return i.fresh("arr", node=e, content=mk("list", *[mk("call", "CANON", (recv, const(j), got) + fg, ()) for j in range(n)]))
            return i.fresh("arr", node=e, content=mk("call", "numpy.array", (mk("list", *[mk("list", *[mk("call", "GRAD", (recv, const(p), const(q), got) + fg, ()) for q in range(n)]) for p in range(n)]),), ()))
        return base(i, f, recv, args, kw, e, ev)
    return Config(hook=hook)


def flatindex(masks):
    out = []
    for i, m in enumerate(masks):
        for j in range(len(m)):
            out.append((i, j))
    return out


def expected(masks, full, v="v"):
    """Matrix of the entries the container must hold."""
    n = sum(len(m) for m in masks)
    free = [x for m in masks for x in m]
    rank = list(itertools.accumulate([0] + [1 if x else 0 for x in free]))
    out = [[const(0.0)] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            if full or sum(free) == n:
                out[i][j] = sym("%s%d_%d" % (v, i, j))
            elif free[i] and free[j]:
                out[i][j] = sym("%s%d_%d" % (v, rank[i], rank[j]))
    return out


def pars(masks):
    return [[sym("q%d_%d" % (i, j)) for j in range(len(m))] for i, m in enumerate(masks)]


def key(k):
    return mk("tuple", *[key(x) for x in k]) if isinstance(k, tuple) else const(k)


def seq(keys):
    return mk("list", *[key(k) for k in keys])


def many(c, name, where, got, wants, facts, e):
    if got.op == "list" and len(got.a) == len(wants):
        for x, (k, w) in zip(got.a, wants):
            c.equal("%s %s" % (name, k), where, x, w, facts, e)
    else:
        c.equal(name, where, got, mk("list", *[w for k, w in wants]), facts, e)


def drive(c, h, name, **args):
    f = c.specfunc("covariance", name)
    return c.run(f, config=cfg(h), heap=h, args=args)


def where(c, name):
    return c.p.func("ModelCovariance." + name).where()


def noexc(r):
    return [negate(x) for x in sorted({x for t in [r.outcome] for x in subterms(t) if x.op == "sym" and x.a[0].startswith("exc")}, key=lambda x: x.n)]


def correlated(v, i, j):
    z = negate(conj(negate(mk("eq", v[i][i], const(0.0))), negate(mk("eq", v[j][j], const(0.0)))))
    root = lambda x: mk("call", "numpy.sqrt", (x,), ())
    return ite(z, const(0.0), mk("div", v[i][j], mk("mul", root(v[i][i]), root(v[j][j]))))


def reports(c, masks, full):
    h, model, m = setup(c, masks, full)
    tag = "/".join("".join("01"[x] for x in s) or "-" for s in masks) + (" all" if full else " free")
    v = expected(masks, full)
    idx = flatindex(masks)
    p = pars(masks)
    e = Equiv()
    keys = [k for a, t in enumerate(idx) for k in (a, t)]
    at = [a for a, t in enumerate(idx) for _ in (0, 1)]
    root = lambda x: mk("call", "numpy.sqrt", (x,), ())
    for name, fn, want in (("value", "getvalue", lambda a: p[idx[a][0]][idx[a][1]]), ("uncertainty", "getuncertainty", lambda a: root(v[a][a])),
                           ("both", "get", lambda a: mk("tuple", p[idx[a][0]][idx[a][1]], root(v[a][a])))):
        r = drive(c, h, name, model=model, cov=sym("cov"), keys=seq(keys))
        many(c, "%s %s" % (tag, name), where(c, fn), r.outcome, [("%s" % (k,), want(a)) for k, a in zip(keys, at)], (), e)
    r = drive(c, h, "pretty", model=model, cov=sym("cov"), keys=seq(keys))
    s = c.run(c.specfunc("covariance", "pretty_rule"), args={"values": mk("list", *[p[idx[a][0]][idx[a][1]] for a in at]), "variances": mk("list", *[v[a][a] for a in at])})
    c.equal("%s printed values" % tag, where(c, "prettypar"), r.outcome, s.outcome, (), e)
    pairs = [(a, b, k, l) for a, s in enumerate(idx) for b, t in enumerate(idx) for k, l in ((a, b), (s, t), (a, t))]
    r = drive(c, h, "covariance", model=model, cov=sym("cov"), pairs=seq([(k, l) for a, b, k, l in pairs]))
    many(c, "%s covariance" % tag, where(c, "setcovariance"), r.outcome, [("%s %s" % (k, l), v[a][b]) for a, b, k, l in pairs], (), e)
    pairs = [(a, b, k, l) for a, b, k, l in pairs if not isinstance(k, tuple)]
    if len(idx) < 3:
        r = drive(c, h, "correlation", model=model, cov=sym("cov"), pairs=seq([(k, l) for a, b, k, l in pairs]))
        many(c, "%s correlation" % tag, where(c, "getcorrelation"), r.outcome, [("%s %s" % (k, l), correlated(v, a, b)) for a, b, k, l in pairs], (), e)
    if idx:
        r = drive(c, h, "keeps_cov", model=model, cov=sym("cov"), x=sym("x"))
        if m:
            c.equal("%s keeps its own matrix" % tag, where(c, "setcovariance"), r.outcome, v[0][0], (), e)
        for j in range(len(masks[0])):
            r = drive(c, h, "keeps_values", model=model, cov=sym("cov"), k=const(j), x=sym("x"))
            c.equal("%s keeps its own model %d" % (tag, j), where(c, "setcovariance"), r.outcome, p[0][j], (), e)


def warnings(c, masks):
    h, model, m = setup(c, masks, True)
    n = sum(len(s) for s in masks)
    v = expected(masks, True)
    idx = flatindex(masks)
    e = Equiv()
    corr = [[mk("div", sym("c%d_%d" % (min(i, j), max(i, j))), const(1)) for j in range(n)] for i in range(n)]
    base = cfg(h)

    def hook(i, f, recv, args, kw, ex, ev):
        if not isinstance(f, str) and f.name == "getcorrelation":
            at = []
            for x in args:
                if x.op == "const":
                    at.append(x.a[0])
                elif x in [key(k) for k in idx]:
                    at.append([key(k) for k in idx].index(x))
            return corr[at[0]][at[1]] if len(at) == 2 else None
        return base.hook(i, f, recv, args, kw, ex, ev)
    config = Config(hook=hook, opaque=lambda f, r, i: f.name == "getcorrelation")
    names = mk("list", *[key(k) for k in idx])
    for name, t in (("warned", sym("threshold")), ("warned_default", const(0.8))):
        kw = {"threshold": t} if name == "warned" else {}
        r = c.run(c.specfunc("covariance", name), config=config, heap=h, args=dict(model=model, cov=sym("cov"), **kw))
        s = c.run(c.specfunc("covariance", "warning"), args={"names": names, "corr": mk("list", *[mk("list", *x) for x in corr]), "threshold": t})
        c.equal("%d parameters, correlations above %s" % (n, "the threshold" if kw else "0.8"), where(c, "correlationwarning"), r.outcome, s.outcome, (mk("le", const(0.0), t),), e)


def refusals(c):
    for masks in ([(True, False)], [(True,), (False, True)]):
        n = sum(len(s) for s in masks)
        k = sum(x for s in masks for x in s)
        for rows, cols in itertools.product(range(1, n + 2), repeat=2):
            h, model, _ = setup(c, masks, True)
            h.contents[sym("cov")] = mk("call", "numpy.array", (mk("list", *[mk("list", *[sym("v%d_%d" % (i, j)) for j in range(cols)]) for i in range(rows)]),), ())
            r = c.run("ModelCovariance.setcovariance", cls="ModelCovariance", config=cfg(h), heap=h, args={"model": model, "cov": sym("cov")})
            ok = rows == cols and rows in (n, k)
            got = sorted({x.kind if x.kind == "return" else r.excname(x) for x in r.r.exits})
            c.add("%d parameters (%d free): %dx%d matrix is %s" % (n, k, rows, cols, "accepted" if ok else "refused"), where(c, "setcovariance"),
                  "ok" if got == (["return"] if ok else ["ValueError"]) else "?" if len(got) != 1 or ok and got != ["ValueError"] else "bad", str(got))
            if not ok:
                for x in r.r.exits:
                    st = [(key_, val) for key_, val in x.state.attrs.items() if key_[0] is SELF and val is not mk("attr", *key_)]
                    c.add("%d parameters (%d free): %dx%d matrix leaves the container alone" % (n, k, rows, cols), where(c, "setcovariance"), "bad" if st and x.kind == "raise" else "ok", str([s[0][1] for s in st]))
    for what in ("covariance", "correlation", "value", "uncertainty", "get", "warning", "transform"):
        masks = [(True,), (True,)]
        h, model, _ = setup(c, masks, True)
        for name, a in (("undefined", {"kind": NONE}), ("after_clear", {"model": model, "cov": sym("cov")})):
            r = drive(c, h, name, what=const(what), i=const(0), j=const(1), **a)
            classes = sorted({x.kind if x.kind == "return" else r.excname(x) for x in r.r.exits})
            c.add("%s of an undefined covariance (%s) is refused" % (what, name), where(c, "get" if what == "get" else "transform" if what == "transform" else "correlationwarning" if what == "warning" else "get" + what),
                  "ok" if classes == ["SrMiseUndefinedCovarianceError"] else "bad", str(classes))


def replaced(c):
    """Nothing of an earlier covariance shows through."""
    for old, new in (([(True, True)], [(True,), (True,)]), ([(True,), (True, True)], [(True, False)]), ([(True,)], [(True, True), (False,)])):
        h, model, _ = setup(c, new, True)
        h2 = world(c, old)
        for s, v in h2.attrs.items():
            if s[0].a[0].startswith("part"):
                h.attrs[(sym("old" + s[0].a[0]), s[1])] = v
        olds = []
        for k, m in enumerate(old):
            o = sym("oldpart%d" % k)
            h.types[o] = c.p.cls("ModelPart")
            owner = h.obj("oldowner%d" % k, npars=const(len(m)))
            h.attrs[(o, "_owner")] = owner
            h.attrs[(o, "pars")] = h.list("oldpars%d" % k, [sym("o%d_%d" % (k, j)) for j in range(len(m))])
            h.attrs[(o, "free")] = h.list("oldfree%d" % k, [const(x) for x in m])
            olds.append(o)
        other = h.list("other", olds, "ModelParts")
        h.obj("more")
        h.contents[sym("more")] = square(sum(len(m) for m in old), "w")
        v, p, idx = expected(new, True), pars(new), flatindex(new)
        e = Equiv()
        pairs = [(a, b) for a in range(len(idx)) for b in range(len(idx))]
        r = drive(c, h, "again", model=model, cov=sym("cov"), other=other, more=sym("more"), pairs=seq([(idx[a], idx[b]) for a, b in pairs]))
        many(c, "second covariance %s replaces the first %s: entry" % (new, old), where(c, "setcovariance"), r.outcome, [("%s %s" % (a, b), v[a][b]) for a, b in pairs], (), e)
        r = drive(c, h, "again_value", model=model, cov=sym("cov"), other=other, more=sym("more"), keys=seq(range(len(idx))))
        many(c, "second covariance %s replaces the first %s: value" % (new, old), where(c, "setcovariance"), r.outcome, [("%s" % (k,), p[k[0]][k[1]]) for k in idx], (), e)


def transforms(c, masks, full):
    h, model, m = setup(c, masks, full)
    tag = "/".join("".join("01"[x] for x in s) or "-" for s in masks) + (" all" if full else " free")
    v, p, idx = expected(masks, full), pars(masks), flatindex(masks)
    e = Equiv(vocab=("GRAD", "CANON"))
    n = len(masks)
    choices = [("all", None, range(n)), ("peaks", const("peaks"), range(n - 1)), ("baseline", const("baseline"), [n - 1])]
    choices += [("part %d" % k, mk("list", const(k)), [k]) for k in range(n)]
    if n > 2:
        choices.append(("parts 0,2", mk("list", const(0), const(2)), [0, 2]))
    for what, parts, which in choices:
        g = [[const(1.0 if a == b else 0.0) for b in range(len(idx))] for a in range(len(idx))]
        for a, (i, j) in enumerate(idx):
            for b, (k, l) in enumerate(idx):
                if i == k and i in which:
                    g[a][b] = mk("call", "GRAD", (sym("owner%d" % i), const(j), const(l), mk("list", *p[i]), F, G), ())
        s = "" if parts is None else "_parts"
        kw = {} if parts is None else {"parts": parts}
        r = drive(c, h, "transformed" + s, model=model, cov=sym("cov"), f=F, g=G, pairs=seq([(a, idx[b]) for a, b in square2(idx)]), **kw)
        many(c, "%s conversion of %s: covariance" % (tag, what), where(c, "transform"), r.outcome, [("%d %d" % (a, b), sandwich(g, v, a, b)) for a, b in square2(idx)], noexc(r), e)
        c.never("%s conversion of %s: a failing part does not end it" % (tag, what), where(c, "transform"), r.r.raises, (), e)
        r = drive(c, h, "transformed%s_value" % s, model=model, cov=sym("cov"), f=F, g=G, keys=seq(range(len(idx))), **kw)
        many(c, "%s conversion of %s: value" % (tag, what), where(c, "transform"), r.outcome, [
            ("%d" % a, mk("call", "CANON", (sym("owner%d" % i), const(j), mk("list", *p[i]), F, G), ()) if i in which else p[i][j]) for a, (i, j) in enumerate(idx)], noexc(r), e)


def square2(idx):
    return [(a, b) for a in range(len(idx)) for b in range(len(idx))]


def sandwich(g, v, a, b):
    """(G V G^T)[a, b]"""
    out = const(0.0)
    for x in range(len(g)):
        for y in range(len(g)):
            if g[a][x] is not const(0.0) and g[b][y] is not const(0.0):
                out = mk("add", out, mk("mul", mk("mul", g[a][x], v[x][y]), g[b][y]))
    return out


def failing(c, masks):
    """A part which cannot be converted keeps its parameters and its covariance."""
    def bad(which, name):
        h, model, m = setup(c, masks, True)
        base = cfg(h).hook

        def hook(i, f, recv, args, kw, e, ev):
            fn = f if isinstance(f, str) else f.name
            if recv is sym("owner%d" % which) and fn in name:
                i.throw(("RuntimeError", "Exception", "BaseException"), e)
                return NONE
            return base(i, f, recv, args, kw, e, ev)
        return h, model, Config(hook=hook)
    v, p, idx = expected(masks, True), pars(masks), flatindex(masks)
    e = Equiv(vocab=("GRAD", "CANON"))
    for which in range(len(masks)):
        for name in (("transform_derivatives", "transform_parameters"), ("transform_parameters",)):
            h, model, config = bad(which, name)
            g = [[const(1.0 if a == b else 0.0) for b in range(len(idx))] for a in range(len(idx))]
            for a, (i, j) in enumerate(idx):
                for b, (k, l) in enumerate(idx):
                    if i == k and i != which:
                        g[a][b] = mk("call", "GRAD", (sym("owner%d" % i), const(j), const(l), mk("list", *p[i]), F, G), ())
            tag = "part %d without %s" % (which, " and ".join(name))
            r = c.run(c.specfunc("covariance", "transformed"), config=config, heap=h, args=dict(model=model, cov=sym("cov"), f=F, g=G, pairs=seq(square2(idx))))
            many(c, tag + ": covariance", where(c, "transform"), r.outcome, [("%d %d" % (a, b), sandwich(g, v, a, b)) for a, b in square2(idx)], noexc(r), e)
            r = c.run(c.specfunc("covariance", "transformed_value"), config=config, heap=h, args=dict(model=model, cov=sym("cov"), f=F, g=G, keys=seq(range(len(idx)))))
            many(c, tag + ": value", where(c, "transform"), r.outcome, [
                ("%d" % a, mk("call", "CANON", (sym("owner%d" % i), const(j), mk("list", *p[i]), F, G), ()) if i != which else p[i][j]) for a, (i, j) in enumerate(idx)], noexc(r), e)


def check(c):
    sizes = [(1,), (2,), (1, 2), (0, 2), (2, 1)] if c.tier == "quick" else [(1,), (2,), (3,), (1, 2), (0, 2), (2, 1), (3, 1), (2, 0, 2), (1, 1, 2)]
    for s in sizes:
        for bits in itertools.product((True, False), repeat=sum(s)):
            it = iter(bits)
            masks = [tuple(next(it) for _ in range(k)) for k in s]
            for full in ([True] if all(bits) or not any(bits) else [True, False]):
                c.attempt("reports", reports, c, masks, full)
    for s in ([(1,), (2,), (1, 2)] if c.tier == "quick" else [(1,), (2,), (1, 2), (3, 1)]):
        c.attempt("warnings", warnings, c, [(True,) * k for k in s][:2])
    c.attempt("refusals", refusals, c)
    c.attempt("replaced", replaced, c)
    for masks, full in [([(True,)], True), ([(True, True)], True), ([(True,), (True, True)], True), ([(True, False), (True,)], False), ([(True,), (), (True,)], True)]:
        c.attempt("transforms", transforms, c, masks, full)
    for masks in [[(True,)], [(True, True), (True,)]]:
        c.attempt("failing", failing, c, masks)
    return c.finish(EXPL, ("the numbers are real",), minimum=60)
