"""Known one-dimensional arrays, element by element, and linear facts about their elements.

Config(arrays=True): arithmetic, comparisons, reductions and the usual constructors on arrays whose elements are known terms are carried
out on the elements.  Anything about an array that is not known stays a call on it."""
from fractions import Fraction

from .terms import *

ELEMENTS = {"numpy." + n for n in "abs sqrt exp log sin cos tan floor ceil negative square".split()}
SCALARS = {"max", "min", "abs", "float", "int", "len", "round"} | ELEMENTS | {"numpy.max", "numpy.min", "numpy.arctan", "numpy.arctan2", "numpy.float64"}
ARITH = {"numpy.add": "add", "numpy.subtract": "sub", "numpy.multiply": "mul", "numpy.divide": "div", "numpy.true_divide": "div", "numpy.power": "pow"}
WIDE = 4      # unknown entries of a mask to tell apart


def linear(t, out=None, k=Fraction(1)):
    """{atom: coefficient} with the constant under None, or None."""
    if out is None:
        out = {}
    if t.op == "const":
        v = t.a[0]
        if isinstance(v, bool) or not isinstance(v, (int, float)) or v != v or v in (float("inf"), float("-inf")):
            return None
        out[None] = out.get(None, 0) + k * Fraction(v)
        return out
    if t.op in ("add", "sub"):
        return out if linear(t.a[0], out, k) is not None and linear(t.a[1], out, k if t.op == "add" else -k) is not None else None
    if t.op == "neg":
        return linear(t.a[0], out, -k)
    if t.op in ("mul", "div"):
        for x, y in ((t.a[0], t.a[1]), (t.a[1], t.a[0]))[:2 if t.op == "mul" else 1]:
            if y.op == "const" and isinstance(y.a[0], (int, float)) and not isinstance(y.a[0], bool) and (t.op == "mul" or y.a[0] != 0):
                return linear(x, out, k * Fraction(y.a[0]) if t.op == "mul" else k / Fraction(y.a[0]))
    if t.op in ("list", "tuple", "dict", "ite"):
        return None
    out[t] = out.get(t, 0) + k
    return out


def inequality(c):
    """c as (linear form, strict): form < 0 or form <= 0; a list of them."""
    if c.op == "and":
        return [z for x in c.a for z in inequality(x)]
    neg = c.op == "not"
    b = c.a[0] if neg else c
    if b.op in ("lt", "le"):
        f = linear(mk("sub", *(b.a if not neg else b.a[::-1])))
        return [] if f is None else [(f, (b.op == "lt") != neg)]
    if b.op == "eq" and not neg:
        f, g = linear(mk("sub", b.a[0], b.a[1])), linear(mk("sub", b.a[1], b.a[0]))
        return [] if f is None else [(f, False), (g, False)]
    return []


def infeasible(rows):
    """No real numbers satisfy these inequalities (elimination of one atom after another)."""
    rows = [({k: v for k, v in f.items() if v != 0}, s) for f, s in rows]
    while True:
        for f, s in rows:
            if all(k is None for k in f) and (f.get(None, 0) > 0 or s and f.get(None, 0) >= 0):
                return True
        rows = [r for r in rows if any(k is not None for k in r[0])]
        if not rows or len(rows) > 120:
            return False
        count = {}
        for f, s in rows:
            for k, v in f.items():
                if k is not None:
                    p, n = count.get(k, (0, 0))
                    count[k] = (p + (v > 0), n + (v < 0))
        x = min(count, key=lambda k: (count[k][0] * count[k][1] - sum(count[k]), k.n))
        up, down, new = [], [], []
        for f, s in rows:
            (up if f.get(x, 0) > 0 else down if f.get(x, 0) < 0 else new).append((f, s))
        for f, s in up:
            for g, r in down:
                a, b = f[x], -g[x]
                h = {}
                for k in set(f) | set(g):
                    v = f.get(k, 0) * b + g.get(k, 0) * a
                    if k is not x and v != 0:
                        h[k] = v
                new.append((h, s or r))
        rows = new


def follows(c, guard):
    """Truth of an inequality from the linear facts among the guards, or None."""
    b = c.a[0] if c.op == "not" else c
    if b.op not in ("lt", "le", "eq"):
        return None
    want = linear(mk("sub", b.a[0], b.a[1]))
    if want is None:
        return None
    facts = [z for g in guard for z in inequality(g)]
    atoms = {k for k in want if k is not None}      # facts connected with the question
    while True:
        near = [r for r in facts if any(k in atoms for k in r[0])]
        more = {k for r in near for k in r[0] if k is not None} | atoms
        if len(more) == len(atoms):
            break
        atoms = more
    if len(near) > 40:
        return None
    for truth_, x in ((True, negate(c)), (False, c)):
        if x.op == "not" and x.a[0].op == "eq" or x.op == "ne":
            e = x.a[0] if x.op == "not" else x
            if all(infeasible(near + [(linear(mk("sub", p, q)), True)]) for p, q in ((e.a[0], e.a[1]), (e.a[1], e.a[0]))):
                return truth_
            continue
        rows = inequality(x)
        if rows and infeasible(near + rows):
            return truth_
    return None


class Arrays(object):
    """Part of the interpreter."""

    def vec(self, t):
        """Elements of a known one-dimensional array, else None."""
        from .interp import plain
        v = self.val(t)
        if v.op == "ite" and self.fanout(v, 8):
            c = self.known(v.a[0])
            if c is TRUE or c is FALSE:
                return self.vec(v.a[1 if c is TRUE else 2])
            a, b = self.vec(v.a[1]), self.vec(v.a[2])
            return [ite(c, x, y) for x, y in zip(a, b)] if a is not None and b is not None and len(a) == len(b) else None
        if self.kind.get(t) == "arr" or isarray(v):
            xs = plain(v)
            if xs is not None and not any(x.op in ("list", "tuple", "dict", "map", "star") or x.op == "ref" and not self.plainobject(x) or isarray(x) for x in xs):
                return [self.val(x) for x in xs]
        return None

    def plainobject(self, x):
        """A known object that numpy keeps as one element."""
        c = self.typeof(x) if x.op == "ref" and self.kind.get(x) == "obj" else None
        return c is not None and not any(c.find(m) for m in ("__len__", "__getitem__", "__iter__", "__array__"))

    def rows(self, t):
        """Rows of a known two-dimensional array, else None."""
        v = self.val(t)
        if v.op == "ite":
            c = self.known(v.a[0])
            return self.rows(v.a[1 if c is TRUE else 2]) if c is TRUE or c is FALSE else None
        return table(v)

    def grid(self, rs, node=None):
        return self.fresh("arr", node=node, content=mk("call", "numpy.array", (mk("list", *[mk("list", *r) for r in rs]),), ()))

    def nested(self, v):
        """Rows of a list of equally long lists of numbers, else None."""
        from .interp import plain
        if v.op not in ("list", "tuple") or not v.a or any(x.op == "star" for x in v.a):
            return None
        out = []
        for x in v.a:
            x = self.val(x)
            l = plain(x)
            if l is None or isinstance(x, str):
                return None
            l = [self.val(y) for y in l]
            if not all(self.scalar(y) for y in l):
                return None
            out.append(l)
        return out if len({len(l) for l in out}) == 1 else None

    def scalar(self, v):
        """Certainly a number."""
        if v.op == "const":
            return isinstance(v.a[0], (int, float)) and v.a[0] is not None
        if v.op == "sym":
            return v not in self.objects and v not in self.st.content and self.typeof(v) is None
        if v.op in ("add", "sub", "mul", "div", "pow", "neg", "mod", "floordiv"):
            return all(self.scalar(x) for x in v.a)
        if v.op == "ite":
            return self.scalar(v.a[1]) and self.scalar(v.a[2])
        if v.op == "glob":
            return v.a[0] in ("numpy.pi", "math.pi", "numpy.inf", "numpy.e")
        if v.op == "call":
            return v.a[0] in SCALARS and all(self.scalar(x) for x in v.a[1]) or self.cfg.number is not None and self.cfg.number(v)
        return v.op in ("lt", "le", "eq", "ne", "and", "or", "not")

    def array(self, xs, node=None):
        return self.fresh("arr", node=node, content=mk("call", "numpy.array", (mk("list", *xs),), ()))

    def pairs(self, a, b):
        """Corresponding elements when one is a known array and the other one of the same length or a number."""
        p, q = self.vec(a), self.vec(b)
        if p is None and q is None:
            return None
        if p is None or q is None:
            other = self.val(b if q is None else a)
            if not self.scalar(other):
                from .interp import plain
                l = plain(other) if other.op in ("list", "tuple") else None
                if l is None or not all(self.scalar(self.val(x)) for x in l):
                    return None
                other = [self.val(x) for x in l]
            else:
                other = [other] * len(p if q is None else q)
            p, q = (p, other) if q is None else (other, q)
        if len(p) != len(q):
            if len(p) == 1:
                p = p * len(q)
            elif len(q) == 1:
                q = q * len(p)
            else:
                return None
        return list(zip(p, q))

    def array_binop(self, op, a, b, node):
        ps = self.pairs(a, b)
        if ps is None:
            return None
        if op in ("bitand", "bitor"):
            out = [conj(truth(x), truth(y)) if op == "bitand" else disj(truth(x), truth(y)) for x, y in ps]
        else:
            out = [self.binop(op, x, y, node) for x, y in ps]
        return self.array(out, node)

    def array_compare(self, op, a, b):
        if op not in ("eq", "ne", "lt", "le", "gt", "ge"):
            return None
        ps = self.pairs(a, b)
        if ps is None:
            return None
        return self.array([self.known(truth(self.compare(op, x, y))) for x, y in ps])

    def extreme(self, n, xs):
        """Largest or smallest of some numbers: one of them where the facts tell, else the call."""
        best = list(xs)
        for x in list(best):
            if len(best) > 1 and any(y is not x and self.known(mk("le", x, y) if n == "max" else mk("le", y, x)) is TRUE and not (y is x) for y in best):
                best.remove(x)
        out = []
        for x in best:
            if x not in out:
                out.append(x)
        if len(out) == 1:
            return out[0]
        if all(x.op == "const" for x in out):
            return const((max if n == "max" else min)(x.a[0] for x in out))
        return mk("call", n, tuple(out), ())

    def place(self, n, xs):
        """Index of the (first) largest or smallest element."""
        out = const(0)
        best = xs[0]
        for k in range(1, len(xs)):
            c = self.known(truth(mk("lt", best, xs[k]) if n == "max" else mk("lt", xs[k], best)))
            out, best = ite(c, const(k), out), ite(c, xs[k], best)
        return out

    def reduce_(self, n, xs):
        if n in ("max", "amax", "min", "amin") and xs:
            return self.extreme(n[-3:], xs)
        if n in ("argmax", "argmin") and 0 < len(xs) <= 5:
            return self.place(n[3:], xs)
        if n == "ptp" and xs:
            return self.binop("sub", self.extreme("max", xs), self.extreme("min", xs), None)
        if n in ("sum", "mean") and (n == "sum" or xs):
            if not xs:
                return const(0.0)
            if all(x in (TRUE, FALSE) for x in xs):
                out = const(sum(1 for x in xs if x is TRUE))
            else:
                out = xs[0] if not xs[0].op in ("lt", "le", "eq", "ne", "and", "or", "not") else ite(xs[0], const(1), const(0))
                for x in xs[1:]:
                    out = self.binop("add", out, x if not x.op in ("lt", "le", "eq", "ne", "and", "or", "not") else ite(x, const(1), const(0)), None)
            return out if n == "sum" else mk("div", out, const(len(xs)))
        if n == "all":
            return conj(*[truth(x) for x in xs])
        if n == "any":
            return disj(*[truth(x) for x in xs])
        return None

    def ascending(self, xs):
        return all(self.known(mk("le", p, q)) is TRUE for p, q in zip(xs, xs[1:]))

    def position(self, xs, x, side):
        """Where a number belongs among ascending ones."""
        out = const(len(xs))
        for k in reversed(range(len(xs))):
            out = ite(self.known(truth(mk("le" if side == "left" else "lt", x, xs[k]))), const(k), out)
        return out

    def insertion(self, xs, x, kw, node):
        """searchsorted."""
        side = dict(self.flatkw(kw)).get("side", const("left"))
        if set(kw) - {"side"} or side.op != "const" or len(xs) > (6 if not all(y.op == "const" for y in xs) else 40) or not self.ascending(xs):
            return None
        if self.scalar(self.val(x)):
            return self.position(xs, self.val(x), side.a[0])
        from .interp import plain
        v = self.val(x)
        many = self.vec(x) or (plain(v) if v.op in ("list", "tuple") else None)
        if many is None or not all(self.scalar(self.val(y)) for y in many):
            return None
        return self.array([self.position(xs, self.val(y), side.a[0]) for y in many], node)

    def chosen(self, xs, node):
        """Indices of the true ones among some conditions."""
        if not all(x in (TRUE, FALSE) or x.op in ("lt", "le", "eq", "ne", "and", "or", "not") for x in xs):
            return None
        ks = [self.known(x) for x in xs]
        if sum(1 for x in ks if x.op != "const") > WIDE:
            return None

        def go(j, got):
            if j == len(ks):
                return mk("call", "numpy.array", (mk("list", *got),), ())
            if ks[j] is TRUE or ks[j] is FALSE:
                return go(j + 1, got + [const(j)] if ks[j] is TRUE else got)
            return ite(ks[j], go(j + 1, got + [const(j)]), go(j + 1, got))
        return self.fresh("arr", node=node, content=go(0, []))

    def interpolated(self, x, xs, ys, node):
        """Piecewise linear between ascending points, constant beyond them."""
        out = ys[-1]
        for k in reversed(range(len(xs) - 1)):
            num = self.binop("mul", self.binop("sub", ys[k + 1], ys[k], node), self.binop("sub", x, xs[k], node), node)
            line = mk("add", ys[k], mk("div", num, self.binop("sub", xs[k + 1], xs[k], node)))
            for j in (k, k + 1):
                if x is xs[j] or self.known(truth(mk("eq", x, xs[j]))) is TRUE:
                    line = ys[j]
            out = ite(self.known(truth(mk("lt", x, xs[k + 1]))), line, out)
        return ite(self.known(truth(mk("le", x, xs[0]))), ys[0], out)

    def ordered(self, xs, where=False, stable=False):
        """The numbers (or their places) in ascending order where the facts tell."""
        def less(a, b):
            return self.known(truth(self.compare("lt", a, b) if "ref" in (a.op, b.op) else mk("lt", a, b)))

        out = []
        for j, x in enumerate(xs):
            k = len(out)
            while k and less(x, out[k - 1][0]) is TRUE:
                k -= 1
            if stable and k and out[k - 1][0] is x:
                out.insert(k, (x, j))
                continue
            if k and (less(out[k - 1][0], x) is not TRUE if where else less(x, out[k - 1][0]) is not FALSE if stable and x.op == "ref" else self.known(truth(mk("le", out[k - 1][0], x))) is not TRUE):
                return None
            out.insert(k, (x, j))
        return [y[1 if where or stable else 0] for y in out]

    def array_attr(self, b, name):
        """Size and shape of a known array."""
        if name not in ("size", "shape", "ndim"):
            return None
        rs = self.rows(b)
        if rs is not None:
            return {"size": const(len(rs) * len(rs[0])), "shape": mk("tuple", const(len(rs)), const(len(rs[0]))), "ndim": const(2)}[name]
        xs = self.vec(b)
        if xs is not None:
            return {"size": const(len(xs)), "shape": mk("tuple", const(len(xs))), "ndim": const(1)}[name]

    def array_method(self, name, recv, args, kw, node):
        rs = self.rows(recv)
        if rs is not None and not args and not kw:
            if name in ("flatten", "ravel"):
                return self.array([x for r in rs for x in r], node)
            if name == "copy":
                return self.grid(rs, node)
            if name == "tolist":
                return self.fresh("list", node=node, content=mk("list", *[self.fresh("list", node=node, content=mk("list", *r)) for r in rs]))
        xs = self.vec(recv)
        if xs is None:
            return None
        if name == "argsort" and not args and len(xs) <= 8 and all(self.scalar(x) or x.op == "ref" and self.plainobject(x) for x in xs):
            r = self.ordered(xs, True)
            return None if r is None else self.array([const(k) for k in r], node)
        if name == "searchsorted" and args and not isinstance(args[0], tuple):
            return self.insertion(xs, args[0], dict(kw, side=args[1]) if len(args) == 2 else kw, node)
        if kw:
            return None
        if name == "nonzero" and not args:
            r = self.chosen(xs, node)
            return None if r is None else mk("tuple", r)
        if not args:
            if name in ("tolist",):
                return self.fresh("list", node=node, content=mk("list", *xs))
            if name in ("copy", "flatten"):
                return self.array(xs, node)
            return self.reduce_(name, xs)
        if name == "astype" and len(args) == 1 and (args[0] not in (mk("builtin", "int"),) or all(x.op == "const" and isinstance(x.a[0], int) for x in xs)):
            return self.array(xs, node)
        return None

    def array_call(self, name, args, kw, node):
        """Calls of numpy on known arrays (None: not one of those)."""
        if not name.startswith("numpy.") or any(isinstance(x, tuple) for x in args):
            return None
        n = name[6:]
        fk = dict(self.flatkw(kw))
        if n == "searchsorted" and len(args) in (2, 3):
            from .interp import plain
            xs = self.vec(args[0]) or (plain(self.val(args[0])) if self.val(args[0]).op in ("list", "tuple") else None)
            return None if xs is None else self.insertion(xs, args[1], dict(kw, side=args[2]) if len(args) == 3 else kw, node)
        if n in ("zeros", "ones", "array", "asarray", "empty", "arange", "full", "zeros_like", "ones_like"):
            fk.pop("dtype", None)
        vals = [self.val(x) for x in args]
        num = lambda t: t.op == "const" and isinstance(t.a[0], int) and not isinstance(t.a[0], bool)
        if n in ("argsort", "flatten", "ravel", "searchsorted") and len(args) == 1 and not fk and (self.vec(args[0]) is not None or n != "argsort" and self.rows(args[0]) is not None):
            return self.array_method(n, args[0], [], {}, node)
        if n in ("concatenate", "vstack") and len(args) == 1 and (not fk or set(fk) == {"axis"} and fk["axis"] == const(0)):
            from .interp import plain
            parts = plain(vals[0]) if vals[0].op in ("list", "tuple") else None
            if parts:
                rs = [self.rows(x) or self.nested(self.val(x)) if plain(self.val(x)) != [] else [] for x in parts]
                if all(r is not None for r in rs) and any(rs):
                    return self.grid([x for r in rs for x in r], node)
        if n == "sum" and len(args) + len(fk) == 2 and (fk.get("axis") if fk else vals[1]) is const(0) and vals[0].op in ("list", "tuple") and vals[0].a:
            rs = [self.vec(x) for x in vals[0].a]           # several arrays, point by point
            if all(r is not None and len(r) == len(rs[0]) for r in rs):
                return self.array([self.reduce_("sum", list(x)) for x in zip(*rs)], node)
        if n == "unique" and len(args) == 1 and set(fk) <= {"axis"} and fk.get("axis", const(0)) == const(0):
            rs = (self.rows(args[0]) or self.nested(vals[0])) if fk else None
            if rs is not None:
                return self.distinct_rows(rs, node)
        if n in ("insert", "delete") and (len(args) == (4 if n == "insert" else 3) and not fk or len(args) == (3 if n == "insert" else 2) and set(fk) == {"axis"}):
            axis = fk["axis"] if fk else vals[-1]
            rs = self.rows(args[0])
            if rs is not None and axis == const(0):
                at = self.vec(args[1])
                from .interp import plain
                at = at if at is not None else plain(vals[1]) if vals[1].op in ("list", "tuple") else None
                if n == "insert" and num(vals[1]) and -len(rs) <= vals[1].a[0] <= len(rs):
                    new = [self.val(x) for x in plain(vals[2]) or []]
                    if len(new) != len(rs[0]):
                        return None
                    k = vals[1].a[0]
                    return self.grid(rs[:k] + [new] + rs[k:], node)
                at = [vals[1]] if num(vals[1]) else at
                if n == "delete" and at is not None and all(num(k) and -len(rs) <= k.a[0] < len(rs) for k in at):
                    gone = {k.a[0] % len(rs) for k in at}
                    left = [r for k, r in enumerate(rs) if k not in gone]
                    return self.grid(left, node) if left else None
                return None
        if n == "empty" and len(vals) == 1 and num(vals[0]) and 0 <= vals[0].a[0] <= 40:
            return self.array([NONE] * vals[0].a[0], node)
        if fk:
            return None
        if n in ("array", "asarray") and len(vals) == 1:
            rs = self.nested(vals[0])
            if rs is not None and rs[0]:
                return self.grid(rs, node)
        if n == "abs" and len(vals) == 1 and self.scalar(vals[0]):
            for c, y in ((mk("le", const(0), vals[0]), vals[0]), (mk("le", vals[0], const(0)), mk("neg", vals[0]))):
                if self.known(c) is TRUE:
                    return y
            return None
        if n in ("zeros", "ones") and vals and num(vals[0]) and 0 <= vals[0].a[0] <= 40:
            return self.array([const(0.0 if n == "zeros" else 1.0)] * vals[0].a[0], node)
        if n == "full" and len(vals) == 2 and num(vals[0]) and self.scalar(vals[1]):
            return self.array([vals[1]] * vals[0].a[0], node)
        if n == "arange" and vals and all(num(x) for x in vals):
            r = range(*[x.a[0] for x in vals])
            if len(r) <= 40:
                return self.array([const(k) for k in r], node)
        if n == "isscalar" and len(args) == 1:
            if self.vec(args[0]) is not None or vals[0].op in ("list", "tuple", "dict") or vals[0] is NONE or self.typeof(args[0]) is not None:
                return FALSE
            if self.scalar(vals[0]):
                return TRUE
            return None
        if not args:
            return None
        from .interp import plain
        xs = self.vec(args[0])
        seq = xs if xs is not None else plain(vals[0]) if vals[0].op in ("list", "tuple") else None
        if seq is not None and xs is None and any(self.val(x).op in ("list", "tuple", "dict", "map") or isarray(self.val(x)) for x in seq):
            seq = None
        if n in ARITH and len(args) == 2:
            return self.array_binop(ARITH[n], args[0], args[1], node)
        if n in ("maximum", "minimum") and len(args) == 2:
            ps = self.pairs(args[0], args[1])
            return None if ps is None else self.array([self.extreme(n[:3], [x, y]) for x, y in ps], node)
        if n in ("logical_and", "logical_or") and len(args) == 2:
            return self.array_binop({"logical_and": "bitand", "logical_or": "bitor"}[n], args[0], args[1], node)
        if n in ("greater", "less", "greater_equal", "less_equal", "equal", "not_equal") and len(args) == 2:
            return self.array_compare({"greater": "gt", "less": "lt", "greater_equal": "ge", "less_equal": "le", "equal": "eq", "not_equal": "ne"}[n], args[0], args[1])
        if n == "clip" and len(args) == 3 and xs is not None:
            return self.array([self.extreme("min", [self.extreme("max", [x, vals[1]]), vals[2]]) for x in xs], node)
        if seq is None:
            if n in ("concatenate", "hstack") and len(args) == 1 and self.rows(args[0]) is not None:
                return self.array([y for r in self.rows(args[0]) for y in r], node)
            if n in ("concatenate", "hstack") and len(args) == 1 and (vals[0].op in ("list", "tuple") or isarray(vals[0]) and plain(vals[0]) is not None):
                vals[0] = mk("list", *plain(vals[0]))
                parts = [self.vec(y) if self.vec(y) is not None else plain(self.val(y)) for y in vals[0].a]
                if any(y is None for y in parts) or not all(self.scalar(self.val(z)) for y in parts for z in y):
                    return None
                return self.array([self.val(z) for y in parts for z in y], node)
            if n == "interp" and len(args) == 3 and self.scalar(vals[0]):
                p, q = self.vec(args[1]), self.vec(args[2])
                if p is not None and q is not None and len(p) == len(q) and 0 < len(p) <= 6 and self.ascending(p):
                    return self.interpolated(vals[0], p, q, node)
            return None
        if len(args) == 1:
            if name in ELEMENTS and xs is not None:
                return self.array([mk("neg", x) if n == "negative" else mk("mul", x, x) if n == "square" else self.val(self.external(name, [x], {}, node)) for x in xs], node)
            if n in ("zeros_like", "ones_like"):
                return self.array([const(0.0 if n == "zeros_like" else 1.0)] * len(seq), node)
            if n == "diff":
                return self.array([self.binop("sub", q, p, node) for p, q in zip(seq, seq[1:])], node)
            if n == "cumsum" and seq:
                out = [seq[0]]
                for x in seq[1:]:
                    out.append(self.binop("add", out[-1], x, node))
                return self.array(out, node)
            if n in ("max", "amax", "min", "amin", "argmax", "argmin", "ptp", "sum", "mean", "all", "any"):
                return self.reduce_(n, [self.val(x) for x in seq])
            if n == "unique" and seq and all(y.op == "const" and not isinstance(y.a[0], str) for y in [self.val(x) for x in seq]):
                return self.array([const(y) for y in sorted({self.val(x).a[0] for x in seq})], node)
            if n == "count_nonzero" and all(self.known(x) in (TRUE, FALSE) or x.op in ("lt", "le", "eq", "ne", "and", "or", "not") for x in seq):
                return self.reduce_("sum", [self.known(x) for x in seq])
            if n == "sort" and all(self.scalar(self.val(x)) for x in seq) and len(seq) <= 12:
                r = self.ordered([self.val(x) for x in seq])
                return None if r is None else self.array(r, node)
            if n == "size":
                return const(len(seq))
        if n == "append" and len(args) == 2:
            more = self.vec(args[1])
            more = more if more is not None else plain(vals[1]) if vals[1].op in ("list", "tuple") else [vals[1]] if self.scalar(vals[1]) or self.plainobject(vals[1]) else None
            return None if more is None else self.array(list(seq) + list(more), node)
        if n == "delete" and len(args) == 2 and num(vals[1]) and -len(seq) <= vals[1].a[0] < len(seq):
            l = list(seq)
            del l[vals[1].a[0]]
            return self.array(l, node)
        if n == "insert" and len(args) == 3 and num(vals[1]) and self.scalar(vals[2]) and -len(seq) <= vals[1].a[0] <= len(seq):
            l = list(seq)
            l.insert(vals[1].a[0] if vals[1].a[0] >= 0 else len(l) + vals[1].a[0], vals[2])
            return self.array(l, node)
        if n == "interp" and len(args) == 3:
            p, q = self.vec(args[1]), self.vec(args[2])
            if p is None or q is None or len(p) != len(q) or len(p) > 6 or not p or not self.ascending(p):
                return None
            return None if xs is None else self.array([self.interpolated(x, p, q, node) for x in xs], node)
        if n in ("where", "nonzero", "flatnonzero") and len(args) == 1 and xs is not None:
            r = self.chosen(xs, node)
            return r if r is None or n == "flatnonzero" else mk("tuple", r)
        if n == "where" and len(args) == 3 and xs is not None:
            a, b = [self.vec(y) or ([self.val(y)] * len(xs) if self.scalar(self.val(y)) else None) for y in args[1:]]
            if a is None or b is None or not len(a) == len(b) == len(xs):
                return None
            return self.array([ite(self.known(truth(c)), y, z) for c, y, z in zip(xs, a, b)], node)
        return None

    def array_index(self, b, v, k, node):
        """Elements of a known array, by position, range or condition."""
        from .interp import mask_of
        rs = self.rows(b) if k.op in ("const", "tuple", "slice", "call", "ref", "list") else None
        if rs is not None:
            return self.table_index(rs, k, node)
        xs = self.vec(b)
        if xs is None:
            return None
        if k.op == "const" and isinstance(k.a[0], int) and not isinstance(k.a[0], bool):
            if -len(xs) <= k.a[0] < len(xs):
                return xs[k.a[0]]
            return self.failed("IndexError", node) if node is not None else None
        if k.op == "slice" and all(x is NONE or x.op == "const" and isinstance(x.a[0], int) for x in k.a):
            return self.array(xs[slice(*[None if x is NONE else x.a[0] for x in k.a])], node)
        ks = self.vec(k) if k.op in ("ref", "call") else None
        if ks is None and isarray(k):
            from .interp import plain
            ks = plain(k)
        if ks is None and k.op == "list":
            ks = [self.val(x) for x in k.a]
        if ks is None:
            return None
        if all(x.op == "const" and isinstance(x.a[0], int) and not isinstance(x.a[0], bool) for x in ks):
            if all(-len(xs) <= x.a[0] < len(xs) for x in ks):
                return self.array([xs[x.a[0]] for x in ks], node)
            return self.failed("IndexError", node) if node is not None else None
        if len(ks) == len(xs) and all(x in (TRUE, FALSE) or x.op in ("lt", "le", "eq", "ne", "and", "or", "not") for x in ks) and sum(1 for x in ks if x.op != "const") <= WIDE:
            def go(j, got):
                if j == len(ks):
                    return mk("call", "numpy.array", (mk("list", *got),), ())
                c = self.known(ks[j])
                if c is TRUE or c is FALSE:
                    return go(j + 1, got + [xs[j]] if c is TRUE else got)
                return ite(c, go(j + 1, got + [xs[j]]), go(j + 1, got))
            return self.fresh("arr", node=node, content=go(0, []))
        return None


    def table_index(self, rs, k, node):
        num = lambda t: t.op == "const" and isinstance(t.a[0], int) and not isinstance(t.a[0], bool)
        fixed = lambda t: t.op == "slice" and all(x is NONE or num(x) for x in t.a)
        cut = lambda l, t: l[slice(*[None if x is NONE else x.a[0] for x in t.a])]
        if num(k):
            if -len(rs) <= k.a[0] < len(rs):
                return self.array(rs[k.a[0]], node)
            return self.failed("IndexError", node) if node is not None else None
        if fixed(k):
            got = cut(rs, k)
            return self.grid(got, node) if got else None
        if k.op == "tuple" and len(k.a) == 2:
            i, j = k.a
            if num(i) and num(j):
                if -len(rs) <= i.a[0] < len(rs) and -len(rs[0]) <= j.a[0] < len(rs[0]):
                    return rs[i.a[0]][j.a[0]]
                return self.failed("IndexError", node) if node is not None else None
            if fixed(i) and num(j) and -len(rs[0]) <= j.a[0] < len(rs[0]):
                return self.array([r[j.a[0]] for r in cut(rs, i)], node)
            if num(i) and fixed(j) and -len(rs) <= i.a[0] < len(rs):
                return self.array(cut(rs[i.a[0]], j), node)
            return None
        from .interp import plain
        ks = self.vec(k) if k.op in ("ref", "call") else plain(k) if k.op == "list" else None
        if ks and all(num(self.val(x)) and -len(rs) <= self.val(x).a[0] < len(rs) for x in ks):
            return self.grid([rs[self.val(x).a[0]] for x in ks], node)
        return None

    def distinct_rows(self, rs, node):
        """numpy.unique of rows, where the order of the first entries is known."""
        out = []
        for r in rs:
            k = len(out)
            while k and self.known(truth(mk("lt", r[0], out[k - 1][0]))) is TRUE:
                k -= 1
            if k and all(x is y for x, y in zip(out[k - 1], r)):
                continue
            if k and self.known(truth(mk("lt", out[k - 1][0], r[0]))) is not TRUE:
                return None
            out.insert(k, r)
        return self.grid(out, node)


def table(v):
    """Rows of the content of a two-dimensional array, else None."""
    if v.op == "call" and v.a[0] in ("numpy.array", "numpy.asarray") and len(v.a[1]) == 1 and v.a[1][0].op == "list":
        l = v.a[1][0].a
        if l and all(x.op == "list" and x.a and not any(y.op in ("list", "tuple", "star", "ref") for y in x.a) for x in l) and len({len(x.a) for x in l}) == 1:
            return [list(x.a) for x in l]
    return None


def isarray(v):
    return v.op == "call" and v.a[0] in ("numpy.array", "numpy.asarray", "numpy.copy", "numpy.asanyarray") and len(v.a[1]) == 1 and v.a[1][0].op in ("list", "tuple", "call", "upd") \
        or v.op == "upd" and isarray(v.a[0])
