"""C06: what a fit minimises, and the derivative it is given."""
import itertools

from sa.check import *

EXPL = ("The routines which pack free parameters, evaluate a model, its error-weighted residual and the residual's derivative matrix are evaluated on known "
        "lists of model parts (all masks of free parameters, up to the size bound) whose functions are opaque; results, stored parameters and the order of rows are "
        "compared with the rule. The call handing them to the optimiser, and the exits of the fit, are compared with their contract.")
R, Y, ERR, RNG = sym("r"), sym("y_expected"), sym("y_error"), sym("range")
PART = mk("slice", const(2), const(5), NONE)
RNAME = {NONE: "whole", RNG: "given", PART: "2:5"}


def world(c, masks):
    h = Heap(c.p)
    parts = []
    for i, m in enumerate(masks):
        owner = h.obj("owner%d" % i, npars=const(len(m)), parameterdict=mk("dict", *[(const("name%d" % j), const(j)) for j in range(len(m))]))
        pars = h.list("pars%d" % i, [sym("q%d_%d" % (i, j)) for j in range(len(m))])
        free = h.list("free%d" % i, [const(x) for x in m])
        parts.append(h.obj("part%d" % i, "ModelPart", _owner=owner, pars=pars, free=free, removable=TRUE, static_owner=FALSE))
    h.contents[SELF] = mk("list", *parts)
    h.masks, h.parts = masks, parts
    return h


def curve(h, i, pars, r, rng):
    return mk("call", "CURVE", (sym("owner%d" % i), mk("list", *pars), r, rng), ())


def slope(h, i, j, pars, r, rng):
    return mk("call", "SLOPE", (sym("owner%d" % i), const(j), mk("list", *pars), r, rng), ())


def hookfor(h, log=None):
    def hook(i, f, recv, args, kw, e, ev):
        name = f if isinstance(f, str) else f.name
        if recv is not None and recv.op == "sym" and recv.a[0].startswith("owner") and name in ("value", "jacobian", "transform_parameters"):
            a = dict(zip({"value": ("p", "r", "rng"), "jacobian": ("p", "r", "rng"), "transform_parameters": ("pars", "in_format", "out_format")}[name], [x for x in args]))
            a.update(kw)
            n = int(recv.a[0][5:])
            if name == "transform_parameters":
                got = i.deep(a["pars"])
                return i.fresh("arr", node=e, content=mk("list", *[mk("call", "CANON", (recv, const(j), got, a.get("in_format", NONE), a.get("out_format", NONE)), ()) for j in range(len(h.masks[n]))]))
            p = a["p"]
            pars = i.deep(i.getattr(p, "pars", e))
            if pars.op != "list":
                pars = mk("list", *[mk("idx", pars, const(j)) for j in range(len(h.masks[n]))])
            r, rng = i.val(a["r"]), a.get("rng", NONE)
            if name == "value":
                return mk("call", "CURVE", (recv, pars, r, rng), ())
            fr = i.deep(i.getattr(p, "free", e))
            return i.fresh("list", node=e, content=mk("list", *[i.fresh("arr", node=e, content=slope(h, n, j, pars.a, r, rng)) if m else NONE for j, m in enumerate(h.masks[n])]))
        return None
    return hook


def cfg(h):
    return Config(hook=hookfor(h))


def row(e, t, k):
    """k-th row of a matrix term."""
    t = e.prep(t)
    if t.op in ("list", "tuple"):
        return t.a[k] if k < len(t.a) else None
    if t.op == "call" and t.a[0] in ("numpy.array", "numpy.asarray", "numpy.vstack") and t.a[1]:
        return row(e, t.a[1][0], k)
    if t.op == "neg":
        x = row(e, t.a[0], k)
        return x and mk("neg", x)
    if t.op in ("mul", "div") :
        x = row(e, t.a[0], k)
        if x is not None:
            return mk(t.op, x, t.a[1])
        if t.op == "mul":
            x = row(e, t.a[1], k)
            return x and mk("mul", t.a[0], x)
        return None
    if t.op == "call" and t.a[0] == "numpy.negative":
        x = row(e, t.a[1][0], k)
        return x and mk("neg", x)
    if t.op == "idx" and t.a[1].op == "tuple" and len(t.a[1].a) == 2 and t.a[1].a[0].op == "slice" and all(x is NONE for x in t.a[1].a[0].a):
        x = row(e, t.a[0], k)
        return x and mk("idx", x, t.a[1].a[1])
    if t.op == "ite":
        x, y = row(e, t.a[1], k), row(e, t.a[2], k)
        return None if x is None or y is None else ite(t.a[0], x, y)
    return None


def rows(e, t):
    """Number of rows, None if not evident."""
    t = e.prep(t)
    if t.op in ("list", "tuple"):
        return len(t.a)
    if t.op in ("neg",) or t.op == "call" and t.a[0] in ("numpy.array", "numpy.asarray", "numpy.vstack", "numpy.negative"):
        return rows(e, t.a[0] if t.op == "neg" else t.a[1][0])
    if t.op in ("mul", "div", "idx"):
        for x in t.a[:2 if t.op == "mul" else 1]:
            n = rows(e, x)
            if n is not None:
                return n
    if t.op == "ite":
        a, b = rows(e, t.a[1]), rows(e, t.a[2])
        return a if a == b else None
    return None


def worlds(c):
    sizes = [(1,), (2,), (3,), (1, 2), (3, 2), (0, 1), (2, 0, 2)] if c.tier == "quick" else [(1,), (2,), (3,), (1, 2), (3, 2), (0, 1), (2, 0, 2), (3, 3), (3, 2, 2), (3, 3, 3)]
    for s in sizes:
        for bits in itertools.product((True, False), repeat=sum(s)):
            it = iter(bits)
            yield [tuple(next(it) for _ in range(n)) for n in s]


def newpars(h, given):
    k = 0
    out = []
    for i, m in enumerate(h.masks):
        l = []
        for j, x in enumerate(m):
            l.append(given[k] if x else sym("q%d_%d" % (i, j)))
            k += x
        out.append(l)
    return out


def whole(t):
    """All arrays of one fit have the length of the grid."""
    if t.op == "idx" and t.a[1].op == "slice" and t.a[1].a[0] is NONE and t.a[1].a[2] is NONE and t.a[1].a[1] is mk("call", "len", (R,), ()):
        return t.a[0]
    if t.op == "mul" and any(x.op == "const" and x.a[0] == 0 for x in t.a):
        return const(0)
    if t.op == "call" and t.a[0] == "len" and t.a[1][0] is not R and (t.a[1][0].op == "call" and t.a[1][0].a[0] in ("CURVE", "SLOPE") or t.a[1][0] in (Y, ERR)):
        return mk("call", "len", (R,), ())
    return None


def structure(c, masks):
    h = world(c, masks)
    tag = "/".join("".join("01"[x] for x in m) or "-" for m in masks)
    nfree = sum(x for m in masks for x in m)
    given = [sym("f%d" % k) for k in range(nfree)]
    fl = h.list("freepars", given)
    after = newpars(h, given)
    numeric = negate(truth(mk("call", "numpy.any", (mk("call", "numpy.isnan", (mk("list", *given),), ()),), ())))
    L = "ModelParts."

    def stored(r, name):
        for i, p in enumerate(h.parts):
            got = r.attr("pars", p)
            for j in range(len(masks[i])):
                c.equal("%s %s leaves parameter %d of part %d" % (tag, name, j, i), r.f.where(), e.prep(mk("idx", got, const(j))), after[i][j], (numeric,), e)
    e = Equiv(norm=whole, vocab=("CURVE", "SLOPE"))
    r = c.run(L + "unpack_freepars", cls="ModelParts", config=cfg(h), heap=h)
    want = [sym("q%d_%d" % (i, j)) for i, m in enumerate(masks) for j, x in enumerate(m) if x]
    val = e.prep(r.value)
    while val.op == "call" and val.a[0] in ("numpy.array", "numpy.concatenate", "numpy.ravel") and len(val.a[1]) == 1:
        val = val.a[1][0]
    if val.op == "list" and val is not mk("list"):
        c.equal("%s unpacks the free parameters in order" % tag, r.f.where(), val, mk("list", *want), (), e)
    r = c.run(L + "pack_freepars", cls="ModelParts", config=cfg(h), heap=h, args={"freepars": fl})
    stored(r, "packing")
    r = c.run(L + "npars", cls="ModelParts", config=cfg(h), heap=h, args={"count_fixed": FALSE})
    c.equal("%s counts its free parameters" % tag, r.f.where(), r.value, const(nfree), (), e)
    r = c.run(L + "npars", cls="ModelParts", config=cfg(h), heap=h, args={"count_fixed": TRUE})
    c.equal("%s counts all its parameters" % tag, r.f.where(), r.value, const(sum(len(m) for m in masks)), (), e)
    for rng in (NONE, RNG, PART):
        g = (mk("isnot", RNG, NONE), numeric)
        curves = [curve(h, i, after[i], R, rng) for i in range(len(masks))]
        h2 = world(c, masks)
        v = c.run(L + "value", cls="ModelParts", config=cfg(h), heap=h, args={"r": R, "range": rng})
        t = const(0)
        for i in range(len(masks)):
            t = mk("add", t, curve(h, i, [sym("q%d_%d" % (i, j)) for j in range(len(masks[i]))], R, rng))
        c.equal("%s value is the sum over the parts (range %s)" % (tag, RNAME[rng]), v.f.where(), v.value, t, g, e)
        if not nfree:
            continue
        spec = c.run(c.specfunc("parts", "residual"), args={"curves": mk("list", *curves), "r": R, "y": Y, "err": ERR, "rng": rng})
        r = c.run(L + "residual", cls="ModelParts", config=cfg(h), heap=h, args={"freepars": fl, "range": rng})
        c.equal("%s residual (range %s)" % (tag, RNAME[rng]), r.f.where(), r.value, spec.value, g, e)
        stored(r, "residual")
        r = c.run(L + "residual_jacobian", cls="ModelParts", config=cfg(h), heap=h, args={"freepars": fl, "range": rng})
        n = rows(e, r.value)
        c.add("%s derivative matrix has one row per free parameter" % tag, r.f.where(), "?" if n is None else "ok" if n == nfree else "bad", "%s rows for %d free parameters" % (n, nfree))
        k = 0
        for i, m in enumerate(masks):
            for j, x in enumerate(m):
                if x:
                    got = row(e, r.value, k)
                    sp = c.run(c.specfunc("parts", "row"), args={"d": slope(h, i, j, after[i], R, rng), "err": ERR, "rng": rng}).value
                    name = "%s row %d is the derivative of the residual by parameter %d of part %d (range %s)" % (tag, k, j, i, RNAME[rng])
                    if got is None:
                        c.add(name, r.f.where(), "?", "no row: %s" % show(r.value, 6))
                    else:
                        c.equal(name, r.f.where(), got, sp, g, e)
                    k += 1


def nonnumeric(c):
    """NaN parameters are refused, and nothing is stored."""
    h = world(c, [(True, True)])
    fl = h.list("freepars", [sym("f0"), sym("f1")])
    r = c.run("ModelParts.pack_freepars", cls="ModelParts", config=cfg(h), heap=h, args={"freepars": fl})
    raises = [x for x in r.r.raises if r.excname(x) == "ValueError"]
    c.add("non-numeric free parameters are refused", r.f.where(), "ok" if raises else "bad", "no ValueError exit")
    e = Equiv()
    for x in raises:
        for j in range(2):
            got = r.attr("pars", h.parts[0], x.state)
            c.equal("refusing non-numeric parameters leaves parameter %d" % j, x.where, e.prep(mk("idx", got, const(j))), sym("q0_%d" % j), (), e)
    if raises:
        out = FALSE
        for x in raises:
            out = negate(conj(negate(out), negate(conj(*x.guard))))
        isn = mk("call", "numpy.isnan", (mk("list", sym("f0"), sym("f1")),), ())
        c.equal("exactly non-numeric free parameters are refused", r.f.where(), ite(out, TRUE, FALSE), ite(truth(mk("call", "numpy.any", (isn,), ())), TRUE, FALSE), (), e)


def check(c):
    for m in worlds(c):
        c.attempt("structure", structure, c, m)
    c.attempt("nonnumeric", nonnumeric, c)
    return c.finish(EXPL, ("data, uncertainties and grid of one fit have one length",), minimum=60)
