"""C07: the contract of a fit with the optimiser, its failures and its covariance."""
import itertools

from sa.check import *
from .c06 import ERR, R, Y, hookfor, world, newpars

EXPL = ("ModelParts.fit is evaluated on known lists of parts with the optimiser replaced by an unknown result. What it hands to the optimiser, under which condition it fails, what it stores and "
        "which covariance it reports are compared with the rule; the exits of the fit must all be fit errors.")
LSQ = ("func", "x0", "args", "Dfun", "full_output", "col_deriv", "ftol", "xtol", "gtol", "maxfev")
RNG, COV, IER, PCOV, INFO, FORMAT, NTRIALS = [sym(x) for x in ("range", "cov", "IER", "PCOV", "INFO", "cov_format", "ntrials")]


def cfg(h, log, tries):
    base = hookfor(h)
    n = sum(x for m in h.masks for x in m)

    def hook(i, f, recv, args, kw, e, ev):
        name = f if isinstance(f, str) else f.name
        if name == "scipy.optimize.leastsq":
            a = dict(zip(LSQ, args))
            a.update(kw)
            log.append((ev, {k: (i.deep(v) if k in ("x0", "args") else i.val(v) if v.op != "ref" else v) for k, v in a.items() if isinstance(v, T)}))
            tries.append(any(t.catchall() for t in i.tries))
            sol = i.fresh("arr", node=e, content=mk("list", *[sym("s%d" % k) for k in range(n)]))
            return mk("tuple", sol, PCOV, INFO, sym("MSG"), IER)
        if recv is COV:
            log.append((ev, [i.deep(x) for x in args]))
            return sym("done_" + name)
        return base(i, f, recv, args, kw, e, ev)
    return Config(hook=hook, opaque=lambda f, r, i: f.cls is not None and f.cls.name == "ModelCovariance")


def whole(t):
    if t.op == "slice" and all(x is NONE for x in t.a):
        return NONE
    return None


def isexc(x):
    return x.op == "sym" and x.a[0].startswith(("exc:", "excat:"))


def excatoms(t):
    return sorted({x for x in subterms(t) if isexc(x)}, key=lambda x: x.n)


def fit(c, masks):
    h = world(c, masks)
    tag = "/".join("".join("01"[x] for x in m) or "-" for m in masks)
    n = sum(x for m in masks for x in m)
    log, tries = [], []
    e = Equiv(norm=whole, vocab=("CURVE", "SLOPE", "CANON"), integer=lambda t: t is IER)
    r = c.run("ModelParts.fit", cls="ModelParts", config=cfg(h, log, tries), heap=h, types={COV: "ModelCovariance"},
              args={"r": R, "y": Y, "y_error": ERR, "range": RNG, "ntrials": NTRIALS, "cov": COV, "cov_format": FORMAT})
    where = r.f.where()
    npoints = ite(mk("is", RNG, NONE), mk("call", "len", (R,), ()), mk("call", "len", (mk("idx", R, RNG),), ()))
    numeric = negate(truth(mk("call", "numpy.any", (mk("call", "numpy.isnan", (mk("list", *[sym("s%d" % k) for k in range(n)]),), ()),), ())))
    quiet = [negate(mk("gvar", "diffpy.srmise.srmiselog", "liveplots")), negate(mk("gvar", "diffpy.srmise.modelparts", "__oldleastsqbehavior__"))]
    old = newpars(h, [sym("q%d_%d" % (i, j)) for i, m in enumerate(masks) for j, x in enumerate(m) if x])
    # failures are fit errors
    classes = sorted({r.excname(x) for x in r.r.raises if not any(g.op == "call" and "isnan" in show(g, 6) for g in flat(x.guard))})
    errs = [x for x in classes if not isfiterror(c, x)]
    if classes:
        c.add("%s every failure of a fit is a fit error" % tag, where, "bad" if errs else "ok", "raises %s" % errs)
    atoms = sorted({x for y in r.r.exits for g in y.guard for x in excatoms(g)}, key=lambda x: x.n)
    few = [x for x in r.r.raises if not excs(x) and not contains_any(x.guard, IER) and not contains_any(x.guard, sym("s0"))]
    if n:
        c.equal("%s refuses exactly more free parameters than the data settle" % tag, where, reached(few), ite(mk("le", npoints, const(n)), TRUE, FALSE), quiet + [negate(x) for x in atoms], e)
    for x in few:
        for i, p in enumerate(h.parts):
            for j in range(len(masks[i])):
                c.equal("%s refused fit leaves parameter %d of part %d" % (tag, j, i), x.where, e.prep(mk("idx", r.attr("pars", p, x.state), const(j))), old[i][j], (), e)
    calls = [x for x in log if isinstance(x[1], dict)]
    if not n:
        c.add("%s is not fitted without free parameters" % tag, where, "bad" if calls else "ok", "the optimiser is called")
        for i, p in enumerate(h.parts):
            for j in range(len(masks[i])):
                c.equal("%s without free parameters keeps parameter %d of part %d" % (tag, j, i), where, e.prep(mk("idx", r.attr("pars", p), const(j))), old[i][j], (), e)
        return
    if not calls:
        c.add("%s calls the optimiser" % tag, where, "?", "scipy.optimize.leastsq is not called")
        return
    for k, (ev, a) in enumerate(calls):
        w = ev.where if ev is not None else where
        name = "%s optimiser call %d" % (tag, k)
        method(c, name + " minimises the residual", w, a.get("func"), "ModelParts.residual")
        x0 = a.get("x0")
        c.equal(name + " starts from the free parameters", w, x0, mk("list", *[old[i][j] for i, m in enumerate(masks) for j, x in enumerate(m) if x]), (), e)
        given = e.prep(a.get("args", NONE))
        if given.op == "tuple":
            c.add(name + " passes the data", w, "ok" if len(given.a) in (3, 4) else "?", "")
            for want, got, what in zip((R, Y, ERR, RNG), given.a + (NONE,), ("grid", "data", "uncertainties", "range")):
                c.equal(name + " passes the " + what, w, got, want, (), e)
        d = a.get("Dfun", NONE)
        if d is not NONE:
            method(c, name + " uses the residual's derivative", w, d, "ModelParts.residual_jacobian")
            col = a.get("col_deriv", FALSE)
            c.add(name + " reads derivatives along rows", w, "?" if col.op != "const" else "ok" if col.a[0] else "bad", "col_deriv = %s" % show(col))
        full = a.get("full_output", FALSE)
        c.add(name + " asks for the full result", w, "?" if full.op != "const" else "ok" if full.a[0] else "bad", "full_output = %s" % show(full))
        c.equal(name + " bounds the evaluations", w, a.get("maxfev", const(0)), NTRIALS, (), e)
    c.add("%s catches whatever the model's functions raise" % tag, where, "ok" if all(tries) else "bad", "an optimiser call is not inside a handler of all exceptions")
    first = calls[0][1].get("Dfun", NONE)
    c.add("%s offers the analytic derivative first" % tag, where, "?" if first is NONE else "ok", "no Dfun")
    # success
    bad = [x for x in r.r.raises if not excs(x) and contains_any(x.guard, IER)]
    good = mk("in", IER, mk("tuple", *[const(k) for k in (1, 2, 3, 4)]))
    facts = quiet + [numeric, mk("lt", const(n), npoints)]
    c.equal("%s fails exactly when the optimiser reports no success" % tag, where, reached(bad), ite(good, FALSE, TRUE), facts + [negate(x) for x in atoms], e)
    final = newpars(h, [sym("s%d" % k) for k in range(n)])
    for i, p in enumerate(h.parts):
        for j in range(len(masks[i])):
            want = mk("call", "CANON", (sym("owner%d" % i), const(j), mk("list", *final[i]), const("internal"), const("internal")), ())
            c.equal("%s stores the canonical solution: parameter %d of part %d" % (tag, j, i), where, e.prep(mk("idx", r.attr("pars", p), const(j))), want, facts + [good], e)
    covariance(c, tag, r, log, n, e, facts + [good] + [negate(x) for x in atoms])


def covariance(c, tag, r, log, n, e, facts):
    where = r.f.where()
    calls = [(ev, a) for ev, a in log if not isinstance(a, dict) and ev is not None]
    by = {}
    for ev, a in calls:
        by.setdefault(ev.data["name"], []).append(ev)
    asked = mk("isnot", COV, NONE)
    defined = conj(asked, mk("isnot", PCOV, NONE))
    sets = by.get("setcovariance", [])
    if not sets:
        c.add("%s reports the covariance" % tag, where, "?", "setcovariance is not called")
        return
    for name, when, what in (("setcovariance", defined, "sets"), ("transform", defined, "converts"), ("clear", conj(asked, mk("is", PCOV, NONE)), "clears")):
        evs = by.get(name, [])
        if name == "clear" and not evs:
            c.add("%s clears an undefined covariance" % tag, where, "?", "no call")
            continue
        c.equal("%s %s the covariance exactly when it should" % (tag, what), where, reached(evs), ite(when, TRUE, FALSE), facts, e)
    c.equal("%s an undefined covariance does not keep earlier values" % tag, where, reached([ev for ev, a in calls]), TRUE, facts + [asked, mk("is", PCOV, NONE)], e)
    for ev, a in calls:
        if ev.data["name"] == "setcovariance":
            c.add("%s covariance belongs to the model" % tag, ev.where, "ok" if len(a) > 0 and ev.args[0] is SELF else "?", "")
            want = c.term("pcov * np.sum(fvec**2) / (len(fvec) - n)", pcov=PCOV, fvec=mk("idx", INFO, const("fvec")), n=const(n))
            if len(a) > 1:
                c.equal("%s covariance is scaled by the residual variance of the fitted points" % tag, ev.where, a[1], want, facts + [defined], e)
        if ev.data["name"] == "transform":
            kw = dict(zip(("in_format", "out_format"), ev.args))
            kw.update(ev.kw)
            for k, want in (("in_format", const("internal")), ("out_format", FORMAT)):
                if k in kw:
                    c.equal("%s covariance is converted %s the right format" % (tag, "from" if k == "in_format" else "to"), ev.where, kw[k], want, facts, e)


def flat(gs):
    for g in gs:
        yield from subterms(g)


def excs(x):
    return any(isexc(g) for g in x.guard)


def contains_any(gs, t):
    return any(y is t for g in gs for y in subterms(g))


def isfiterror(c, name):
    try:
        k = c.p.cls(name)
    except Exception:
        return False
    return any(x.name == "SrMiseFitError" for x in k.mro)


def method(c, name, where, t, want):
    want = c.p.func(want)
    if t is not None and t.op == "bound":
        ok = t.a[0] is SELF and t.a[1] == want.qual
        c.add(name, where, "ok" if ok else "bad", show(t))
    else:
        c.add(name, where, "?", t is not None and show(t) or "missing")


def check(c):
    sizes = [(1,), (2,), (1, 2), (0, 2)] if c.tier == "quick" else [(1,), (2,), (3,), (1, 2), (0, 2), (3, 3), (2, 2, 2)]
    for s in sizes:
        for bits in itertools.product((True, False), repeat=sum(s)):
            it = iter(bits)
            c.attempt("fit", fit, c, [tuple(next(it) for _ in range(k)) for k in s])
    return c.finish(EXPL, ("the optimiser is scipy.optimize.leastsq",), minimum=20)
