"""Deciding whether two value terms denote the same value.

``Equiv.compare(code, spec)`` splits on the gate conditions of both terms and
compares the leaves: numbers by algebra (a sympy expression over opaque atoms,
zero test on the difference), everything else structurally.  Three verdicts:

  eq   the terms are equal in that case
  ne   they differ, and the code term is written only with vocabulary the
       specification or the algebra interprets, so the difference is real
  ?    they could not be related; never reported as a violation

The cases are built from the conditions themselves (comparisons are grouped by
the quantity they bound, so contradictory cases are never visited).
"""
import os
import random
from fractions import Fraction

import mpmath
import sympy as sp

from .terms import FALSE, NONE, TRUE, T, boolval, conj, const, contains, ite, mk, negate, rewrite, show, subterms, truth

ARITH = {"add", "sub", "mul", "div", "pow", "neg"}
MATH = {"numpy.sqrt": sp.sqrt, "numpy.exp": sp.exp, "numpy.log": sp.log, "numpy.sin": sp.sin, "numpy.cos": sp.cos,
        "numpy.abs": sp.Abs, "abs": sp.Abs, "numpy.arcsin": sp.asin, "numpy.sign": sp.sign, "numpy.tan": sp.tan,
        "numpy.arccos": sp.acos, "numpy.arctan": sp.atan, "numpy.log2": lambda x: sp.log(x) / sp.log(2),
        "numpy.log10": lambda x: sp.log(x) / sp.log(10), "numpy.square": lambda x: x ** 2, "numpy.negative": lambda x: -x,
        "numpy.floor": sp.floor, "numpy.ceil": sp.ceiling, "numpy.reciprocal": lambda x: 1 / x, "numpy.deg2rad": lambda x: x * sp.pi / 180, "numpy.sinh": sp.sinh,
        "numpy.cosh": sp.cosh, "numpy.tanh": sp.tanh, "numpy.cbrt": lambda x: sp.cbrt(x), "numpy.float64": lambda x: x,
        "float": lambda x: x, "numpy.expm1": lambda x: sp.exp(x) - 1, "numpy.log1p": lambda x: sp.log(1 + x)}
MATH2 = {"numpy.power": lambda a, b: a ** b, "pow": lambda a, b: a ** b, "numpy.multiply": lambda a, b: a * b,
         "numpy.add": lambda a, b: a + b, "numpy.subtract": lambda a, b: a - b, "numpy.divide": lambda a, b: a / b,
         "numpy.true_divide": lambda a, b: a / b, "numpy.hypot": lambda a, b: sp.sqrt(a ** 2 + b ** 2)}
# functions whose meaning is fixed and different from every other one in the list
KNOWN = set("""numpy.round numpy.rint numpy.trunc int round numpy.mod numpy.fmod numpy.sum numpy.mean numpy.median
numpy.prod numpy.min numpy.max numpy.argmin numpy.argmax numpy.argsort numpy.sort numpy.cumsum numpy.diff numpy.zeros numpy.ones
numpy.arange numpy.linspace numpy.interp numpy.ptp numpy.isnan numpy.any numpy.all numpy.identity numpy.eye
numpy.concatenate numpy.array numpy.asarray numpy.unique numpy.delete numpy.insert numpy.append numpy.searchsorted numpy.conj
numpy.real numpy.imag numpy.copy numpy.zeros_like numpy.ones_like numpy.full numpy.isscalar numpy.floor_divide
numpy.maximum numpy.minimum
len min max MIN MAX SUM LEN ANY ALL range sorted reversed str repr bool list tuple dict set zip enumerate isinstance hasattr type callable
numpy.isfinite numpy.isinf numpy.logical_not numpy.flip numpy.ravel numpy.flatten scipy.fftpack.fft scipy.fftpack.ifft""".split())
KNOWN |= set(MATH) | set(MATH2)
OPAQUE_OPS = {"loop", "phi", "undef", "exc", "havoc", "mut", "excval", "closure", "lambda", "concat", "ext", "app", "star", "fmap", "updall"}
STRUCT = {"idx", "attr", "slice", "list", "tuple", "dict", "map", "lam", "sum", "const", "sym", "bv", "glob", "class", "func", "builtin", "lt", "le",
          "gt", "ge", "eq", "ne", "is", "isnot", "in", "notin", "and", "or", "not", "ite", "upd", "mod", "call", "mcall", "floordiv", "module", "bound",
          "pos", "fld", "ref", "invert", "matmul"} | ARITH
WIDE = {"map", "lam", "in", "notin", "upd", "mod", "bound", "fld", "matmul", "pos", "ref"}

SWEEPS = 40     # attempts to move a sample into its case
TRIALS = 120
DEEP = os.environ.get("VERIF_TIER") == "thorough"
FLOATS = (mk("builtin", "float"), mk("glob", "numpy.float64"), const("float"), NONE)


class Undecided(Exception):
    pass


def num(t):
    return t.op == "const" and isinstance(t.a[0], (int, float)) and not isinstance(t.a[0], bool)


def pn(t):
    """t with its head normalised."""
    r = prenorm(t)
    return t if r is None else r


def prenorm(t):
    return prenorm_(t)


def elements(t):
    """Elements of an elementwise combination of known lists; a term for a scalar; None if unknown."""
    if t.op in ("list", "tuple"):
        return None if any(x.op == "star" for x in t.a) else list(t.a)
    if t.op == "call" and t.a[0] in ("numpy.array", "numpy.asarray", "numpy.copy", "numpy.asanyarray") and t.a[1]:
        return elements(t.a[1][0])
    if t.op == "call" and t.a[0] in ("numpy.logical_and", "numpy.logical_or", "numpy.not_equal", "numpy.equal") and len(t.a[1]) == 2:
        t = mk({"numpy.logical_and": "bitand", "numpy.logical_or": "bitor", "numpy.not_equal": "ne", "numpy.equal": "eq"}[t.a[0]], *t.a[1])
    if t.op == "call" and t.a[0] == "numpy.logical_not" and len(t.a[1]) == 1:
        t = mk("invert", t.a[1][0])
    if t.op == "invert":
        x = elements(t.a[0])
        return [negate(truth(y)) for y in x] if isinstance(x, list) else None
    if t.op in ("eq", "ne", "lt", "le", "bitand", "bitor"):
        a, b = elements(t.a[0]), elements(t.a[1])
        if not isinstance(a, list) and not isinstance(b, list) or a is None or b is None:
            return None
        n = len(a) if isinstance(a, list) else len(b)
        a, b = (x if isinstance(x, list) else [x] * n for x in (a, b))
        if len(a) != n or len(b) != n:
            return None
        if t.op == "bitand":
            return [conj(truth(x), truth(y)) for x, y in zip(a, b)]
        if t.op == "bitor":
            return [negate(conj(negate(truth(x)), negate(truth(y)))) for x, y in zip(a, b)]
        return [mk(t.op, x, y) for x, y in zip(a, b)]
    if t.op in ("const", "sym"):
        return t
    return None


def prenorm_(t):
    """Spelling differences between equal library calls."""
    if t.op == "call":
        n, a, kw = t.a[0], t.a[1], t.a[2]
        if n in ("min", "numpy.min", "numpy.amin", "numpy.minimum", "max", "numpy.max", "numpy.amax", "numpy.maximum") and not kw:
            m = "MIN" if "min" in n else "MAX"
            if len(a) == 1 and a[0].op in ("list", "tuple"):
                a = a[0].a
            elif len(a) == 1 and a[0].op == "call" and a[0].a[0] in ("numpy.array", "numpy.asarray") and a[0].a[1] and a[0].a[1][0].op in ("list", "tuple"):
                a = a[0].a[1][0].a
            return mk("call", m, tuple(sorted(a, key=lambda x: x.n)) if len(a) > 1 else a, ())
        if n in ("numpy.sum", "sum") and len(a) == 1 and not kw:
            if a[0].op == "map":
                return mk("sum", a[0])
            if a[0].op == "call" and a[0].a[0] in ("numpy.array", "numpy.asarray") and a[0].a[1] and a[0].a[1][0].op == "map":
                return mk("sum", a[0].a[1][0])
            if n == "sum" and a[0].op in ("list", "tuple") and a[0].a and len(a[0].a) < 40:
                out = a[0].a[0]
                for x in a[0].a[1:]:
                    out = mk("add", out, x)
                return out
            return mk("call", "SUM", a, ())
        if n in ("numpy.any", "any", "numpy.all", "all") and len(a) == 1 and not kw:
            return mk("call", "ANY" if "any" in n else "ALL", a, ())
        if n == "len" and len(a) == 1:
            x = a[0]
            if x.op in ("list", "tuple", "dict"):
                return const(len(x.a))
            if x.op == "call" and x.a[0] in ("numpy.array", "numpy.asarray", "list", "tuple") and len(x.a[1]) >= 1:
                return pn(mk("call", "len", (x.a[1][0],), ()))
            if x.op == "call" and x.a[0] in ("numpy.zeros", "numpy.ones", "range", "numpy.arange") and len(x.a[1]) == 1:
                return x.a[1][0]
            if x.op == "map":
                return x.a[0]
            if x.op == "upd" or x.op == "neg":
                return pn(mk("call", "len", (x.a[0],), ()))
            if x.op in ("add", "sub", "mul", "div", "pow") and any(num(y) for y in x.a):
                return pn(mk("call", "len", ([y for y in x.a if not num(y)] or x.a)[:1], ()))
            if x.op == "idx" and x.a[1].op == "slice" and bounded(x.a[1]):
                return const(bounded(x.a[1]))
        if n in ("numpy.floor_divide",) and len(a) == 2:
            return mk("floordiv", *a)
        if n == "numpy.mod" and len(a) == 2 and not kw:
            return mk("mod", *a)
        if n in ("numpy.full",) and len(a) == 2:
            return mk("mul", a[1], mk("call", "numpy.ones", (a[0],), ()))
        if n in ("numpy.zeros_like",) and len(a) == 1:
            return mk("mul", a[0], const(0.0))
        if n == "numpy.float64" and len(a) == 1 or n == "float" and len(a) == 1 and a[0].op != "const":
            return a[0]
        if n == "numpy.logical_not" and len(a) == 1:
            return mk("invert", a[0])
        if n == "numpy.searchsorted":
            kws = tuple((k, v) for k, v in kw if not (k == "side" and v is const("left")))
            if kws != kw:
                return mk("call", n, a, kws)
        if n == "numpy.identity":
            return mk("call", "numpy.eye", a, kw)
        if n in ("numpy.asarray", "numpy.asanyarray"):
            return pn(mk("call", "numpy.array", a, kw))
        if n in ("numpy.array", "numpy.zeros", "numpy.ones") and kw and all(k == "dtype" and v in FLOATS for k, v in kw):
            return pn(mk("call", n, a, ()))
        if n in ("numpy.zeros", "numpy.ones") and len(a) == 1 and a[0].op == "attr" and a[0].a[1] == "shape":
            return mk("call", n, (mk("call", "len", (a[0].a[0],), ()),), ())
        if n in ("numpy.logical_not",) and len(a) == 1 and a[0].op in ("list", "tuple"):
            return mk("list", *[negate(truth(x)) for x in a[0].a])
        if n in ("SUM", "numpy.count_nonzero") and len(a) == 1 and a[0].op in ("list", "tuple") and all(x.op == "const" for x in a[0].a):
            return const(sum((1 if x.a[0] else 0) if n != "SUM" else x.a[0] for x in a[0].a))
        if n == "SUM" and len(a) == 1 and a[0].op in ("list", "tuple") and len(a[0].a) < 40 and not any(x.op in ("star", "list", "tuple") for x in a[0].a):
            out = a[0].a[0]
            for x in a[0].a[1:]:
                out = mk("add", out, x)
            return out
        if n in ("ANY", "ALL") and len(a) == 1 and a[0].op not in ("list", "tuple"):
            xs = elements(a[0])
            if xs is not None and not isinstance(xs, T):
                a = (mk("list", *xs),)
        if n in ("ANY", "ALL") and len(a) == 1 and a[0].op in ("list", "tuple"):
            f = conj(*[truth(x) for x in a[0].a]) if n == "ALL" else negate(conj(*[negate(truth(x)) for x in a[0].a]))
            return f
        if n == "numpy.polyval" and len(a) == 2 and a[0].op in ("list", "tuple") and not kw:
            out = const(0)
            for j, x in enumerate(a[0].a):
                e = len(a[0].a) - 1 - j
                out = mk("add", out, mk("mul", x, mk("pow", a[1], const(e))))
            return out
        if n == "numpy.sum" or n == "sum":
            pass
        if n == "numpy.array" and len(a) == 1 and a[0].op == "call" and a[0].a[0] in ("numpy.array", "numpy.zeros", "numpy.ones", "numpy.arange"):
            return a[0]
        if n == "list" and len(a) == 1 and a[0].op in ("map", "fmap", "list"):
            return a[0] if a[0].op != "list" else a[0]
    if t.op == "concat" and t.a and all(x.op in ("list", "tuple") for x in t.a):
        return mk("list", *[y for x in t.a for y in x.a])
    if t.op == "map" and t.a[0].op == "const" and isinstance(t.a[0].a[0], int) and 0 <= t.a[0].a[0] <= 24 and t.a[1].op == "lam":
        lam = t.a[1]
        return mk("list", *[normal(rewrite(lam.a[1], lambda y: const(k) if y.op == "bv" and y.a[0] == lam.a[0] else None)) for k in range(t.a[0].a[0])])
    if t.op == "attr" and t.a[1] == "size" and t.a[0].op != "ref" and t.a[0].op not in ("sym",):
        return mk("call", "len", (t.a[0],), ())
    if t.op == "idx":
        x, k = t.a
        if x.op == "attr" and x.a[1] == "shape" and k is const(0):
            return mk("call", "len", (x.a[0],), ())
        if x.op == "attr" and x.a[1] == "shape" and k.op == "const":
            n = extent(x.a[0], k.a[0])
            if n is not None:
                return n
        if x.op == "call" and x.a[0] in ("numpy.array", "numpy.copy") and x.a[1]:
            return pn(mk("idx", x.a[1][0], k))
        if k.op == "slice" and all(y is NONE for y in k.a):
            return x
        if k.op == "slice" and (k.a[0] is const(0)) and k.a[2] is NONE:
            return pn(mk("idx", x, mk("slice", NONE, k.a[1], NONE)))
        if k.op == "slice" and k.a[2] is const(1):
            return pn(mk("idx", x, mk("slice", k.a[0], k.a[1], NONE)))
        if k.op == "slice" and k.a[0] is NONE and k.a[2] is NONE and k.a[1] is mk("call", "len", (x,), ()):
            return x
        if x.op in ("add", "sub", "mul", "div", "neg", "pow") and not (k.op == "const" and isinstance(k.a[0], str)) and not any(
                y.op in ("list", "tuple", "map", "concat", "fmap") or y.op == "const" and not num(y) for y in x.a):
            return mk(x.op, *[y if num(y) else pn(mk("idx", y, k)) for y in x.a])
        if x.op == "idx" and x.a[1].op != "slice" and k.op not in ("slice", "tuple") and False:
            return mk("idx", x.a[0], mk("tuple", x.a[1], k))
        if x.op in ("list", "tuple") and k.op == "const" and isinstance(k.a[0], int) and -len(x.a) <= k.a[0] < len(x.a):
            return x.a[k.a[0]]
        if x.op == "upd" and k.op == "const":
            if x.a[1] is k:
                return x.a[2]
            if x.a[1].op == "const":
                return pn(mk("idx", x.a[0], k))
        if x.op == "map" and k.op not in ("slice", "tuple", "list", "ite") and x.a[1].op == "lam" and not (num(k) and k.a[0] < 0):
            lam = x.a[1]
            return rewrite(lam.a[1], lambda y: k if y.op == "bv" and y.a[0] == lam.a[0] else None)
        if x.op == "ite":
            return ite(x.a[0], pn(mk("idx", x.a[1], k)), pn(mk("idx", x.a[2], k)))
    if t.op == "invert" and t.a[0].op in ("list", "tuple") and all(x.op == "const" and isinstance(x.a[0], bool) for x in t.a[0].a):
        return mk("list", *[negate(truth(x)) for x in t.a[0].a])
    if t.op == "slice" and t.a[2] is const(1):
        return pn(mk("slice", t.a[0], t.a[1], NONE))
    if t.op == "slice" and t.a[0] is const(0):
        return mk("slice", NONE, t.a[1], NONE)
    if t.op == "matmul":
        return mk("call", "numpy.dot", t.a, ())
    if t.op == "upd":
        b, k, v = t.a
        if b.op == "mul":
            for x, z in (b.a, (b.a[1], b.a[0])):
                if num(z) and z.a[0] == 0:
                    return mk("upd", mk("call", "numpy.zeros", (pn(mk("call", "len", (x,), ())),), ()), k, v)
        if k.op == "const" and b.op == "upd" and b.a[1].op == "const":
            if b.a[1] is k:
                return pn(mk("upd", b.a[0], k, v))
            if str(b.a[1].a[0]) > str(k.a[0]):
                return mk("upd", pn(mk("upd", b.a[0], k, v)), b.a[1], b.a[2])
        if k.op == "const" and b.op == "list" and isinstance(k.a[0], int) and -len(b.a) <= k.a[0] < len(b.a):
            l = list(b.a)
            l[k.a[0]] = v
            return mk("list", *l)
    if t.op in ("and", "or"):
        out = conj(*t.a) if t.op == "and" else negate(conj(*[negate(x) for x in t.a]))
        return out if out is not t else None
    if t.op in ("gt", "ge"):
        return mk("lt" if t.op == "gt" else "le", t.a[1], t.a[0])
    return None


def bounded(s):
    """Length of an array cut to constant bounds (the array being long enough)."""
    a, b, c = s.a
    if c is NONE and num(b) and (a is NONE or num(a)):
        a = 0 if a is NONE else a.a[0]
        return b.a[0] - a if 0 <= a < b.a[0] else 0
    return 0


def extent(x, j):
    """Term of the extent of x along axis j, None if not evident."""
    if x.op == "neg" or x.op == "call" and x.a[0] in ("numpy.array", "numpy.negative", "numpy.vstack", "numpy.copy") and x.a[1]:
        return extent(x.a[0] if x.op == "neg" else x.a[1][0], j)
    if x.op in ("list", "tuple") and x.a:
        if j == 0:
            return const(len(x.a))
        return pn(mk("call", "len", (x.a[0],), ())) if j in (1, -1) and x.a[0].op not in ("list", "tuple", "const") else None
    if x.op == "idx" and x.a[1].op == "tuple" and len(x.a[1].a) == 2 and x.a[1].a[0].op == "slice" and all(y is NONE for y in x.a[1].a[0].a):
        if j == 0:
            return extent(x.a[0], 0)
        if j in (1, -1):
            z = x.a[0]
            while z.op == "neg" or z.op == "call" and z.a[0] in ("numpy.array", "numpy.negative", "numpy.vstack", "numpy.copy") and z.a[1]:
                z = z.a[0] if z.op == "neg" else z.a[1][0]
            if z.op in ("list", "tuple") and z.a:
                return pn(mk("call", "len", (pn(mk("idx", z.a[0], x.a[1].a[1])),), ()))
    return None


_pm = {}


def normal(t):
    def f(x):
        for _ in range(8):
            y = prenorm(x)
            if y is None or y is x:
                return x
            x = y
        return x
    r = _pm.get(t)
    if r is None:
        r = _pm[t] = rewrite(t, f)
    return r


class Env(object):
    """A case: intervals for the compared quantities, values for the rest."""

    def __init__(self):
        self.num = {}       # base expr key -> (lo, lo_open, hi, hi_open) / ints
        self.val = {}       # term -> ('is', const term) | ('not', frozenset(const terms))
        self.bool = {}      # cond term -> bool
        self.log = []

    def copy(self):
        e = Env()
        e.num, e.val, e.bool, e.log = dict(self.num), dict(self.val), dict(self.bool), list(self.log)
        return e


class Equiv(object):
    def __init__(self, norm=None, positive=None, integer=None, vocab=(), maxcases=4000, seed=7, pure=(), samples=None, narrow=False):
        self.narrow = narrow     # only what the specification uses is understood
        self.norm = norm
        self._positive = positive or (lambda t: False)
        self._integer = integer or (lambda t: False)
        self.vocab = set(vocab)
        self.atoms = []          # (term, symbol)
        self.byterm = {}
        self.symterm = {}
        self.cmpkey = {}
        self.maxcases = maxcases
        self.rnd = random.Random(seed)
        self.memo = {}
        self.busy = set()
        self.samples = samples or {}
        self.proved = 0
        self.bynum = 0
        self.depth = 0
        self.exprs = set()

    # ---- preparation ------------------------------------------------------
    def prep(self, t):
        r = self.memo.get(("prep", t))
        if r is None:
            r = t
            for _ in range(4):
                n = normal(r)
                if self.norm is not None:
                    n = rewrite(n, self.norm)
                if n is r:
                    break
                r = n
            self.memo[("prep", t)] = r
        return r

    # ---- algebra ------------------------------------------------------------
    def atom(self, t):
        s = self.byterm.get(t)
        if s is not None:
            return s
        for u, su in self.atoms:
            if u.op == t.op and self.eqv(t, u) == "eq":
                self.byterm[t] = su
                return su
        pos = self._positive(t) or (t.op == "call" and t.a[0] in ("len", "LEN") and False)
        s = sp.Symbol("a%d" % len(self.atoms), real=True, positive=True if pos else None)
        self.atoms.append((t, s))
        self.byterm[t] = s
        self.symterm[s] = t
        return s

    def expr(self, x):
        """A term standing for a sympy expression over the atoms."""
        if x.is_number and (x.is_Integer or x.is_Float):
            return const(int(x) if x.is_Integer else float(x))
        t = mk("sym", "$E%d:%s" % (id(self), x))
        self.memo[("sym", t)] = x
        self.memo[("prep", t)] = t
        self.exprs.add(t)
        return t

    def arith(self, t):
        return t in self.exprs or t.op in ARITH or t.op == "mod" and not (t.a[0].op == "const" and isinstance(t.a[0].a[0], str)) or num(t) or (t.op == "call" and (t.a[0] in MATH and len(t.a[1]) == 1 or t.a[0] in MATH2 and len(t.a[1]) == 2) and not t.a[2]) \
            or (t.op == "glob" and t.a[0] in ("numpy.pi", "numpy.e", "numpy.inf", "numpy.nan"))

    def sym(self, t):
        r = self.memo.get(("sym", t))
        if r is not None:
            return r
        o = t.op
        if num(t):
            v = t.a[0]
            if isinstance(v, float) and (v != v or v in (float("inf"), float("-inf"))):
                r = sp.oo if v > 0 else (-sp.oo if v < 0 else sp.nan)
            else:
                r = sp.Rational(Fraction(repr(v))) if isinstance(v, float) else sp.Integer(v)
        elif o == "add":
            r = self.sym(t.a[0]) + self.sym(t.a[1])
        elif o == "sub":
            r = self.sym(t.a[0]) - self.sym(t.a[1])
        elif o == "mul":
            r = self.sym(t.a[0]) * self.sym(t.a[1])
        elif o == "div":
            r = self.sym(t.a[0]) / self.sym(t.a[1])
        elif o == "pow":
            r = self.sym(t.a[0]) ** self.sym(t.a[1])
        elif o == "neg":
            r = -self.sym(t.a[0])
        elif o == "mod" and t.a[0].op != "const":
            r = sp.Mod(self.sym(t.a[0]), self.sym(t.a[1]))
        elif o == "glob" and t.a[0] == "numpy.pi":
            r = sp.pi
        elif o == "glob" and t.a[0] == "numpy.e":
            r = sp.E
        elif o == "call" and t.a[0] in MATH and len(t.a[1]) == 1 and not t.a[2]:
            r = MATH[t.a[0]](self.sym(t.a[1][0]))
        elif o == "call" and t.a[0] in MATH2 and len(t.a[1]) == 2 and not t.a[2]:
            r = MATH2[t.a[0]](self.sym(t.a[1][0]), self.sym(t.a[1][1]))
        else:
            r = self.atom(t)
        self.memo[("sym", t)] = r
        return r

    def zero(self, e, env=None):
        """True / False / None for e == 0 (in the case env)."""
        if e == 0:
            self.proved += 1
            return True
        if e.is_number:
            try:
                z = sp.N(e, 40)
                if abs(z) > mpmath.mpf(10) ** -25:
                    return False
                return True
            except Exception:
                return None
        syms = sorted(e.free_symbols, key=lambda s: s.name)
        f = self.fn(e)
        if f is None:
            return None
        good = 0
        with mpmath.workdps(30):
            for trial in range(TRIALS):
                if good >= 6:
                    break
                vals = self.point(syms, env, trial)
                if vals is None:
                    continue
                v = self.at(f, vals)
                if v is None:
                    continue
                if abs(v) > mpmath.mpf(10) ** -14:
                    return False
                good += 1
        if good == 0:
            return None
        sure = self.memo.get(("sure", e))
        if sure is None:
            try:
                num_ = sp.expand(sp.numer(sp.together(e))) if sp.count_ops(e) < 300 else None
                sure = num_ == 0 or num_ is not None and DEEP and sp.count_ops(num_) < 400 and sp.simplify(num_) == 0
            except Exception:
                sure = False
            self.memo[("sure", e)] = bool(sure)
        if sure:
            self.proved += 1
            return True
        self.bynum += 1
        return True if good >= 3 else None

    def fn(self, e):
        r = self.memo.get(("fn", e))
        if r is None:
            syms = sorted(e.free_symbols, key=lambda s: s.name)
            try:
                r = (syms, sp.lambdify(syms, e, modules="mpmath", cse=True))
            except Exception:
                r = False
            self.memo[("fn", e)] = r
        return r or None

    @staticmethod
    def at(f, vals):
        """Real value at a point, None where it has none."""
        try:
            v = mpmath.mpmathify(f[1](*[vals[s] for s in f[0]]))
            if mpmath.isnan(v) or mpmath.isinf(v) or abs(mpmath.im(v)) > mpmath.mpf(10) ** -14:
                return None
            return mpmath.re(v)
        except Exception:
            return None

    def feasible(self, env):
        """A point of the case exists (None: none was found)."""
        if env is None or not env.num:
            return True
        with mpmath.workdps(30):
            for trial in range(TRIALS):
                if self.point([], env, trial) is not None:
                    return True
        return None

    def point(self, syms, env, trial):
        """A sample of the atoms inside the case (used only to refute or confirm an identity)."""
        need = set(syms)
        cons = []
        if env is not None and env.num:
            for base, box in env.num.items():
                cons.append((base, box))
                need |= base.free_symbols
        vals = {}
        for s in sorted(need, key=lambda s: s.name):
            t = self.symterm.get(s)
            rng = None
            if t is not None:
                for k, v in self.samples.items():
                    if k is t or callable(k) and k(t):
                        rng = v
            if rng is not None:
                lo, hi = rng
                vals[s] = mpmath.mpf(lo) + (mpmath.mpf(hi) - lo) * mpmath.mpf(self.rnd.random())
            elif t is not None and self.isint(t):
                vals[s] = mpmath.mpf(self.rnd.randint(0 if trial % 2 else 1, 9))
            elif s.is_positive or trial % 3 == 0:
                vals[s] = mpmath.mpf(self.rnd.randint(20, 300)) / 97
            else:
                vals[s] = mpmath.mpf(self.rnd.randint(-300, 300)) / 97
        # put single quantities inside their interval, then check every condition of the case
        free = {}
        for base, box in cons:
            fs = base.free_symbols
            s = base if base.is_Symbol else None
            if s is not None and s not in free:
                free[s] = box
                lo, loo, hi, hio = box
                L = None if lo is None else self.numval(lo)
                H = None if hi is None else self.numval(hi)
                v = vals[s]
                if L is not None and H is not None:
                    if L == H:
                        vals[s] = L
                    elif not (L < v < H):
                        isint = self.isint(self.symterm.get(s, NONE))
                        vals[s] = mpmath.mpf(self.rnd.randint(int(mpmath.ceil(L)), int(mpmath.floor(H)))) if isint else L + (H - L) * (mpmath.mpf(self.rnd.randint(1, 99)) / 100)
                elif L is not None and v <= L:
                    vals[s] = L + abs(v - L) + (1 if self.isint(self.symterm.get(s, NONE)) else 0)
                elif H is not None and v >= H:
                    vals[s] = H - abs(v - H) - (1 if self.isint(self.symterm.get(s, NONE)) else 0)
            elif len(fs) == 1 and box[0] is not None and box[0] == box[2]:
                s = next(iter(fs))
                c = self.slope(base, s)
                if c.is_number and c != 0:
                    vals[s] = mpmath.mpf(sp.N((box[0] - base.subs(s, 0)) / c, 40))
            elif box[0] is not None and box[0] == box[2] and all(x.is_Symbol for x in fs):
                # an equality between several atoms: solve it for one that is not bound otherwise
                for s in sorted(fs, key=lambda x: x.name):
                    if s in free:
                        continue
                    c = self.slope(base, s)
                    if c.is_number and c != 0:
                        g = self.fn(base - c * s)
                        v0 = self.at(g, vals) if g else None
                        if v0 is not None:
                            vals[s] = (self.numval(box[0]) - v0) / self.numval(c)
                            free[s] = box
                        break
        moving = trial % 20 == 19 and len(cons) > 3
        for sweep in range(SWEEPS if moving else 1):
            broken = 0
            for base, box in cons:
                f = self.fn(base)
                v = self.at(f, vals) if f else None
                if v is None:
                    return None
                lo, loo, hi, hio = box
                goal = None
                if lo is not None:
                    L = self.numval(lo)
                    if v < L - mpmath.mpf(10) ** -20 or loo and v <= L:
                        goal, side = L, 1
                if hi is not None and goal is None:
                    H = self.numval(hi)
                    if v > H + mpmath.mpf(10) ** -20 or hio and v >= H:
                        goal, side = H, -1
                if goal is None:
                    continue
                if not moving:
                    return None
                broken += 1
                # move one of the quantities so that this condition holds, and look at all of them again
                if lo is not None and hi is not None:
                    w = (self.numval(hi) - self.numval(lo)) * self.rnd.randint(1, 99) / 100
                else:
                    w = mpmath.mpf(self.rnd.randint(1, 99)) / 97
                goal = goal + side * w
                if goal == v:
                    return None
                move = []
                for s in sorted(base.free_symbols, key=lambda x: x.name):
                    t = self.symterm.get(s)
                    if t is not None and self.isint(t) or any(k is t or callable(k) and k(t) for k in self.samples):
                        continue
                    c = self.slope(base, s)
                    if c.is_number and c != 0:
                        move.append((s, c))
                if not move:
                    return None
                s, c = move[self.rnd.randrange(len(move))]
                vals[s] += (goal - v) / self.numval(c)
                if s.is_positive and vals[s] <= 0:
                    return None
            if not broken:
                return vals
        return None

    def slope(self, base, s):
        r = self.memo.get(("slope", base, s))
        if r is None:
            r = self.memo[("slope", base, s)] = sp.diff(base, s)
        return r

    def numval(self, x):
        r = self.memo.get(("nv", x))
        if r is None:
            r = self.memo[("nv", x)] = mpmath.mpf(sp.N(x, 40))
        return r

    def isint(self, t):
        if t.op == "call" and t.a[0] in ("len", "int", "LEN", "numpy.argmin", "numpy.argmax", "numpy.searchsorted"):
            return True
        return bool(self._integer(t))

    # ---- structural equality ------------------------------------------------
    def eqv(self, a, b, env=None):
        a, b = self.prep(a), self.prep(b)
        return self._eqv(a, b, env)

    def _eqv(self, a, b, env=None):
        if a is b:
            return "eq"
        key = (a, b, None if env is None else id(env))
        r = self.memo.get(key)
        if r is not None and env is None:
            return r
        if (a, b) in self.busy:
            return "?"
        self.busy.add((a, b))
        try:
            r = self._eqv1(a, b, env)
        finally:
            self.busy.discard((a, b))
        if env is None:
            self.memo[key] = r
        return r

    def _eqv1(self, a, b, env):
        if a.op == "ite" or b.op == "ite" or a.op in ("and", "or", "not") or b.op in ("and", "or", "not"):
            # conditions below a binder or inside an opaque argument: decide by cases
            return self.worst(self.compare(a, b, env=env))
        if self.arith(a) or self.arith(b):
            try:
                p, q = self.sym(a), self.sym(b)
                if env is not None:
                    pins = {s: box[0] for s, box in env.num.items() if s.is_Symbol and box[0] is not None and box[0] == box[2]}
                    if pins:        # a quotient by a quantity that is zero in this case
                        p0, q0 = p.subs(pins), q.subs(pins)
                        if p0.has(sp.zoo, sp.nan) and not q0.has(sp.zoo, sp.nan):
                            return "ne"
                z = self.zero(p - q, env)
            except Exception:
                z = None
            if z is True:
                return "eq"
            if z is False:
                return "ne"
            return "?"
        if a.op == "const" or b.op == "const":
            if a.op == b.op:
                return "eq" if a.a[0] == b.a[0] and (type(a.a[0]) is type(b.a[0]) or num(a) and num(b)) else "ne"
            x = b if a.op == "const" else a
            c = a if a.op == "const" else b
            if env is not None:
                v = env.val.get(x)
                if v is not None and v[0] == "is":
                    return "eq" if v[1] is c else "ne"
                if x.op in ("lt", "le", "eq", "ne", "is", "isnot", "in", "notin"):
                    return self.worst(self.compare(a, b, env=env))
            return "ne"
        if a.op != b.op:
            return "ne"
        if a.op == "lam":
            self.depth += 1
            s = mk("sym", "$b%d" % self.depth)
            x = rewrite(a.a[1], lambda y: s if y.op == "bv" and y.a[0] == a.a[0] else None)
            y = rewrite(b.a[1], lambda y: s if y.op == "bv" and y.a[0] == b.a[0] else None)
            r = self.worst(self.compare(x, y, env=env))
            self.depth -= 1
            return r
        if a.op in ("call", "mcall"):
            if a.a[0] != b.a[0]:
                return "ne"
            ka = dict(a.a[2] if a.op == "call" else a.a[3])
            kb = dict(b.a[2] if b.op == "call" else b.a[3])
            xa, xb = (a.a[1], b.a[1]) if a.op == "call" else (a.a[2], b.a[2])
            res = []
            if a.op == "mcall":
                res.append(self._eqv(a.a[1], b.a[1], env))
                if a.a[4] != b.a[4]:
                    res.append("?")
            if len(xa) != len(xb) or set(ka) != set(kb):
                return "?" if ka or kb else "ne"
            if a.op == "call" and a.a[0] in ("MIN", "MAX") and len(xa) > 1:
                used = set()
                for p in xa:
                    for j, q in enumerate(xb):
                        if j not in used and self._eqv(p, q, env) == "eq":
                            used.add(j)
                            break
                    else:
                        return "ne"
                return "eq"
            for p, q in zip(xa, xb):
                res.append(self._eqv(p, q, env))
            for k in ka:
                if isinstance(ka[k], T) and isinstance(kb[k], T):
                    res.append(self._eqv(ka[k], kb[k], env))
            return self.worst(res)
        if len(a.a) != len(b.a):
            return "ne"
        res = []
        for p, q in zip(a.a, b.a):
            res.append(self._eqx(p, q, env))
        return self.worst(res)

    def _eqx(self, p, q, env):
        if isinstance(p, T) and isinstance(q, T):
            return self._eqv(p, q, env)
        if isinstance(p, tuple) and isinstance(q, tuple):
            if len(p) != len(q):
                return "ne"
            return self.worst([self._eqx(x, y, env) for x, y in zip(p, q)])
        return "eq" if p == q else "ne"

    @staticmethod
    def worst(rs):
        rs = [r if isinstance(r, str) else r[1] for r in rs]
        if "ne" in rs:
            return "ne"
        if "?" in rs or "empty" in rs and "eq" not in rs:
            return "?"
        return "eq"

    # ---- conditions -----------------------------------------------------------
    def quantity(self, a, b):
        """b - a as (base, const): base has no constant term; sign-normalised flag."""
        k = ("q", a, b)
        r = self.memo.get(k)
        if r is None:
            e = sp.expand(self.sym(b) - self.sym(a))
            c, base = e.as_coeff_Add()
            if not c.is_number:
                c, base = sp.Integer(0), e
            flip = False
            if base != 0:
                lead = base.as_ordered_terms()[0].as_coeff_Mul()[0] if base.is_Add else base.as_coeff_Mul()[0]
                if lead.is_number and lead != 0:
                    base = sp.expand(base / abs(lead))
                    c = c / abs(lead)
                    if lead < 0:
                        base, c, flip = sp.expand(-base), -c, True
            r = self.memo[k] = (base, c, flip)
        return r

    def decide(self, c, env):
        """True/False/None for a condition term in a case."""
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        o = c.op
        if o == "not":
            r = self.decide(c.a[0], env)
            return None if r is None else not r
        if o == "and":
            rs = [self.decide(x, env) for x in c.a]
            if False in rs:
                return False
            return None if None in rs else True
        if o == "or":
            rs = [self.decide(x, env) for x in c.a]
            if True in rs:
                return True
            return None if None in rs else False
        if o == "ite":
            g = self.decide(c.a[0], env)
            if g is None:
                p, q = self.decide(c.a[1], env), self.decide(c.a[2], env)
                return p if p is not None and p == q else None
            return self.decide(c.a[1] if g else c.a[2], env)
        if o in ("isnot", "ne", "notin"):
            r = self.decide(negate(c), env)
            return None if r is None else not r
        if o == "in" and c.a[1].op in ("list", "tuple", "dict"):
            items = [x[0] for x in c.a[1].a] if c.a[1].op == "dict" else list(c.a[1].a)
            return self.decide(negate(conj(*[negate(mk("eq", c.a[0], x)) for x in items])), env)
        if o == "is" or o == "eq" and self.valued(c):
            x, v = (c.a[0], c.a[1]) if c.a[1].op == "const" else (c.a[1], c.a[0])
            if v.op == "const":
                if x.op == "const":
                    return x.a[0] == v.a[0]
                x = self.rep(x)
                k = env.val.get(x)
                if k is None:
                    return None
                if k[0] == "is":
                    return k[1] is v
                return False if v in k[1] else None
            return env.bool.get(self.rep(c))
        if o in ("lt", "le", "eq") :
            if self.isnum(c.a[0]) and self.isnum(c.a[1]):
                try:
                    base, k, flip = self.quantity(*c.a)
                except Exception:
                    return env.bool.get(self.rep(c))
                # c.a[1]-c.a[0] = s*(base + k), s = -1 when flip
                return self.interval(o, base, k, flip, env)
            return env.bool.get(self.rep(c))
        b = boolval(c)
        if b is not None:
            return b
        if num(c):
            return bool(c.a[0])
        x = self.rep(c)
        k = env.val.get(x)
        if k is not None and k[0] == "is":
            return bool(k[1].a[0])
        if x in env.bool:
            return env.bool[x]
        return None

    def isnum(self, t):
        return not (t.op in ("list", "tuple", "dict", "class", "func") or t.op == "const" and not num(t))

    def valued(self, c):
        return any(x.op == "const" and not num(x) for x in c.a)

    def rep(self, t):
        """Representative of an opaque condition or value term (equal terms share one)."""
        r = self.memo.get(("rep", t))
        if r is None:
            reps = self.memo.setdefault("reps", [])
            for u in reps:
                if u is t or u.op == t.op and self._eqv(t, u) == "eq":
                    r = u
                    break
            else:
                reps.append(t)
                r = t
            self.memo[("rep", t)] = r
        return r

    def interval(self, o, base, k, flip, env):
        """Decide s*(base+k) > 0 (lt) / >= 0 (le) / == 0 (eq) from the interval known for base."""
        if base == 0:
            v = -k if flip else k
            return bool(v > 0) if o == "lt" else bool(v >= 0) if o == "le" else bool(v == 0)
        lo, loo, hi, hio = self.box(base, env)
        # base + k in (lo+k, hi+k)
        L = None if lo is None else lo + k
        H = None if hi is None else hi + k
        if flip:
            L, loo, H, hio = (None if H is None else -H), hio, (None if L is None else -L), loo
        if o == "eq":
            if L is not None and (L > 0 or L == 0 and loo):
                return False
            if H is not None and (H < 0 or H == 0 and hio):
                return False
            if L is not None and H is not None and L == 0 and H == 0:
                return True
            return None
        if o == "lt":
            if L is not None and (L > 0 or L == 0 and loo):
                return True
            if H is not None and H <= 0:
                return False
            return None
        if L is not None and L >= 0:
            return True
        if H is not None and (H < 0 or H == 0 and hio):
            return False
        return None

    def box(self, base, env):
        b = env.num.get(base)
        if b is not None:
            return b
        if base.is_positive:
            return (sp.Integer(0), True, None, False)
        if base.is_nonnegative or base.is_Symbol and self.isint(self.symterm.get(base, NONE)):
            return (sp.Integer(0), False, None, False)
        return (None, False, None, False)

    def split(self, c, env):
        """The cases of an undecided condition: list of Env."""
        o = c.op
        if o == "not":
            return self.split(c.a[0], env)
        if o in ("and", "or"):
            for x in c.a:
                if self.decide(x, env) is None:
                    return self.split(x, env)
            raise Undecided()
        if o == "ite":
            if self.decide(c.a[0], env) is None:
                return self.split(c.a[0], env)
            return self.split(c.a[1] if self.decide(c.a[0], env) else c.a[2], env)
        if o in ("isnot", "ne", "notin"):
            return self.split(negate(c), env)
        if o == "in" and c.a[1].op in ("list", "tuple", "dict"):
            items = [x[0] for x in c.a[1].a] if c.a[1].op == "dict" else list(c.a[1].a)
            for x in items:
                if self.decide(mk("eq", c.a[0], x), env) is None:
                    return self.split(mk("eq", c.a[0], x), env)
            raise Undecided()
        if o == "is" or o == "eq" and self.valued(c):
            x, v = (c.a[0], c.a[1]) if c.a[1].op == "const" else (c.a[1], c.a[0])
            if v.op == "const":
                x = self.rep(x)
                e1, e2 = env.copy(), env.copy()
                e1.val[x] = ("is", v)
                e1.log.append((c, True))
                old = env.val.get(x, ("not", frozenset()))
                e2.val[x] = ("not", old[1] | {v})
                e2.log.append((c, False))
                return [e1, e2]
            return self.bsplit(c, env)
        if o in ("lt", "le", "eq") and self.isnum(c.a[0]) and self.isnum(c.a[1]):
            try:
                base, k, flip = self.quantity(*c.a)
            except Exception:
                return self.bsplit(c, env)
            if base == 0:
                raise Undecided()
            lo, loo, hi, hio = self.box(base, env)
            p = -k
            isint = base.is_Symbol and self.isint(self.symterm.get(base, NONE)) and p.is_Integer
            outs = []
            for box in ((lo, loo, p, True), (p, False, p, False), (p, True, hi, hio)):
                b = box
                if isint:
                    if b[2] is not None and b[3]:
                        b = (b[0], b[1], b[2] - 1, False)
                    if b[0] is not None and b[1]:
                        b = (b[0] + 1, False, b[2], b[3])
                if b[0] is not None and b[2] is not None and (b[0] > b[2] or b[0] == b[2] and (b[1] or b[3])):
                    continue
                if lo is not None and b[2] is not None and (b[2] < lo or b[2] == lo and loo):
                    continue
                if hi is not None and b[0] is not None and (b[0] > hi or b[0] == hi and hio):
                    continue
                e = env.copy()
                e.num[base] = b
                e.log.append((c, {0: "<", 1: "=", 2: ">"}[len(outs)]))
                e.log[-1] = (c, self.decide(c, e))
                outs.append(e)
            if not outs:
                raise Undecided()
            return outs
        return self.bsplit(c, env)

    def bsplit(self, c, env):
        x = self.rep(c)
        e1, e2 = env.copy(), env.copy()
        e1.bool[x] = True
        e2.bool[x] = False
        e1.log.append((c, True))
        e2.log.append((c, False))
        return [e1, e2]

    # ---- cases ------------------------------------------------------------------
    def resolve(self, t, env, memo=None):
        """Take the decided branches of every gate (not below binders depending on the bound variable)."""
        if memo is None:
            memo = {}
        r = memo.get(t)
        if r is not None:
            return r
        if t.op == "ite":
            d = self.decide(t.a[0], env)
            if d is not None:
                r = self.resolve(t.a[1] if d else t.a[2], env, memo)
                memo[t] = r
                return r

        def go(y):
            if isinstance(y, T):
                return self.resolve(y, env, memo)
            if isinstance(y, tuple):
                return tuple(go(z) for z in y)
            return y
        if t.op in ("lt", "le", "eq", "ne", "is", "isnot", "in", "notin", "and", "or", "not"):
            d = self.decide(t, env)
            if d is not None:
                memo[t] = const(d)
                return memo[t]
        na = tuple(go(y) for y in t.a)
        if na == t.a:
            r = t
        elif t.op == "ite":
            r = ite(*na)
        else:
            r = mk(t.op, *na)
            p = prenorm(r)
            if p is not None:
                r = p
        memo[t] = r
        return r

    def pending(self, t, bound=()):
        """First undecided gate condition that does not depend on a bound variable."""
        stack = [t]
        seen = set()
        while stack:
            x = stack.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == "ite" and not self.varying(x.a[0]):
                # the outermost condition first, but conditions nested in conditions before it
                return self.pending(x.a[0]) or x.a[0]
            for y in x.a:
                if isinstance(y, T):
                    stack.append(y)
                elif isinstance(y, tuple):
                    for z in y:
                        if isinstance(z, T):
                            stack.append(z)
                        elif isinstance(z, tuple):
                            stack.extend(w for w in z if isinstance(w, T))
        return None

    def varying(self, t):
        """Mentions a bound variable or the position of a loop."""
        r = self.memo.get(("vary", t))
        if r is None:
            r = self.memo[("vary", t)] = bool(self.unbound(t))
        return r

    def unbound(self, t):
        """Bound variables and loop positions that occur freely."""
        r = self.memo.get(("unbound", t))
        if r is None:
            if t.op in ("bv", "pos", "phi"):
                r = frozenset([(t.op == "bv" and t.a[0] or t)])
            else:
                r = frozenset()
                for y in t.a:
                    for z in (y if isinstance(y, tuple) else (y,)):
                        for w in (z if isinstance(z, tuple) else (z,)):
                            if isinstance(w, T):
                                r = r | self.unbound(w)
                if t.op == "lam":
                    r = r - {t.a[0]}
            self.memo[("unbound", t)] = r
        return r

    def boolean(self, t):
        return t.op in ("lt", "le", "eq", "ne", "is", "isnot", "in", "notin", "and", "or", "not") or t is TRUE or t is FALSE

    def assume(self, env, facts):
        envs = [env]
        for f in facts:
            f = self.prep(f)
            work, out = envs, []
            while work:
                e = work.pop()
                d = self.decide(f, e)
                if d is True:
                    out.append(e)
                elif d is None:
                    try:
                        work.extend(self.split(f, e))
                    except Undecided:
                        out.append(e)
            envs = out
        return envs

    def compare(self, a, b, facts=(), env=None):
        """[(case log, verdict, a-leaf, b-leaf)] over all cases consistent with facts."""
        a, b = self.prep(a), self.prep(b)
        res = []
        work = [(e, a, b) for e in self.assume(env.copy() if env is not None else Env(), facts)]
        n = 0
        while work:
            e, x, y = work.pop()
            n += 1
            if n > self.maxcases:
                res.append((e.log, "?", x, y))
                break
            for _ in range(6):       # a decided gate inside a condition can decide that condition
                x0, y0 = x, y
                x, y = self.resolve(x, e), self.resolve(y, e)
                if x is x0 and y is y0:
                    break
            if x is y:
                res.append((e.log, "eq", x, y))
                continue
            c = self.pending(x)
            if c is None:
                c = self.pending(y)
            if c is None and (self.boolean(x) or self.boolean(y)):
                for z in (x, y):
                    if not (z is TRUE or z is FALSE) and self.boolean(z) and not self.varying(z):
                        c = z
                        break
            if c is not None:
                try:
                    work.extend((e2, x, y) for e2 in self.split(c, e))
                except Undecided:
                    res.append((e.log, "?" if self.feasible(e) else "empty", x, y))
                continue
            v = self._eqv(x, y, e)
            if v != "eq" and self.feasible(e) is None:
                v = "empty"
            res.append((e.log, v, x, y))
        return res

    def foreign(self, code, spec):
        """Heads of the code term outside the interpreted vocabulary."""
        struct = STRUCT - WIDE if self.narrow else STRUCT
        known = (set(MATH) | set(MATH2) | {"int", "float", "abs", "numpy.abs", "round", "numpy.round", "bool"} if self.narrow else KNOWN) | self.vocab | {"MIN", "MAX", "SUM", "ANY", "ALL", "numpy.eye"}
        for x in subterms(self.prep(spec)):
            if x.op == "call":
                known.add(x.a[0])
            elif x.op == "mcall":
                known.add("." + x.a[0])
            else:
                known.add("op:" + x.op)
        out = set()
        mine = None
        for x in subterms(self.prep(code)):
            if x.op == "attr" and x.a[1] in SHAPES or x.op == "slice" and any(plainlen(y) for y in x.a):
                # how long an array is is not known to the algebra
                mine = mine if mine is not None else set(subterms(self.prep(spec)))
                if x not in mine:
                    out.add("length")
            if x.op == "call" and x.a[0] not in known and not (x.a[0].startswith("oracle.") and "oracle" in self.vocab):
                out.add(x.a[0])
            elif x.op == "mcall" and "." + x.a[0] not in known and x.a[0] not in self.vocab:
                out.add("." + x.a[0])
            elif x.op not in struct and "op:" + x.op not in known:
                out.add("op:" + x.op)
        return out

    def strange(self, r, spec, facts=()):
        """Is a differing case beyond the interpreted vocabulary?"""
        out = self.foreign(r[2], r[3])
        if self.narrow:
            ref = mk("tuple", spec, *facts)
            for c, v in r[0]:
                if v is not None:
                    out |= self.foreign(c, ref) - {"op:raised"}
            return out - {"op:raised"} if r[2].op == "raised" else out
        if r[2] is TRUE or r[2] is FALSE or out == {"op:raised"} and r[2].op == "raised":
            # a decision or a refusal: its condition must be understood
            out = set()
            ref = mk("tuple", spec, *facts)
            for c, v in r[0]:
                if v is not None:
                    out |= self.foreign(c, ref)
        return out

    def opaque(self, spec, code):
        """Uninterpreted constructs of the specification term that the code term lacks."""
        def ops(t):
            return {x.op for x in subterms(self.prep(t)) if x.op in OPAQUE_OPS}
        return ops(spec) - ops(code)

    def verdict(self, code, spec, facts=()):
        """(verdict, cases, first differing case)"""
        if self.prep(code) is self.prep(spec) and self.prep(code).op in ("list", "const"):
            return "eq", [([], "eq", code, spec)], None
        out = self.verdict_(code, spec, facts)
        if out[0] != "eq":
            # which of a few numbers is the least or greatest may be decided elsewhere in the terms
            ts = [rewrite(self.prep(x), extreme) for x in (code, spec)]
            fs = [rewrite(self.prep(x), extreme) for x in facts]
            if ts[0] is not self.prep(code) or ts[1] is not self.prep(spec):
                alt = self.verdict_(ts[0], ts[1], fs)
                if alt[0] == "eq" or out[0] == "ne" and alt[0] == "?":
                    return alt
        return out

    def verdict_(self, code, spec, facts=()):
        rs = self.compare(code, spec, facts)
        bad = [r for r in rs if r[1] == "ne" and not self.strange(r, spec, facts) and not self.opaque(r[3], r[2])]
        if bad:
            return "ne", rs, bad[0]
        unk = [r for r in rs if r[1] not in ("eq", "empty")]
        if not any(r[1] == "eq" for r in rs):
            return "?", rs, rs[0] if rs else None
        if unk:
            return "?", rs, unk[0]
        return "eq", rs, None


def extreme(t):
    """The least or greatest of a few numbers, by case."""
    if t.op == "call" and t.a[0] in ("MIN", "MAX") and 2 <= len(t.a[1]) <= 3:
        out = t.a[1][0]
        for x in t.a[1][1:]:
            out = ite(mk("lt", x, out) if t.a[0] == "MIN" else mk("lt", out, x), x, out)
        return out
    return None


SHAPES = ("shape", "size", "ndim", "dtype", "T")


def plainlen(t):
    return t.op == "call" and t.a[0] == "len" or t.op == "attr" and t.a[1] == "size" or t.op == "idx" and t.a[0].op == "attr" and t.a[0].a[1] == "shape"


def showcase(log):
    return " and ".join("%s%s" % ("" if v else "not ", show(c, 5)) for c, v in log if v is not None) or "always"
