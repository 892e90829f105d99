"""Hash-consed terms: the value numbers of the analyser.

A term is a node ``T(op, args)``; equal terms are the same object.  ``args``
are terms, strings, numbers or tuples of those.  Construction applies only
simplifications that hold for every Python value the repository computes
(constant folding of booleans/None/strings/ints, gate simplification); number
algebra lives in algebra.py.
"""

_table = {}


class T(object):
    __slots__ = ("op", "a", "n", "__weakref__")

    def __repr__(self):
        return show(self)

    # interned: identity hash/eq


_count = 0


def mk(op, *a):
    key = (op,) + tuple((type(x).__name__, x) if not isinstance(x, T) else id(x) for x in a)
    t = _table.get(key)
    if t is None:
        global _count
        t = T()
        t.op, t.a = op, a
        _count += 1
        t.n = _count
        _table[key] = t
    return t


def const(v):
    return mk("const", v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)


def is_const(t, v=None):
    if t.op != "const":
        return False
    return v is None or (t.a[0] == v and type(t.a[0]) is type(v))


def boolval(t):
    """Truth value of a term if it is certain, else None."""
    if t.op == "const":
        try:
            return bool(t.a[0])
        except Exception:
            return None
    if t.op in ("list", "tuple", "dict", "set"):
        if any(isinstance(x, T) and x.op == "star" for x in t.a):
            return None
        return len(t.a) > 0
    if t.op in ("func", "class", "module", "glob", "bound", "lambda"):
        return True
    return None


def negate(c):
    r = _neg.get(c)
    if r is None:
        r = _neg[c] = _negate(c)
    return r


_neg = {}
_tru = {}


def _negate(c):
    b = boolval(c)
    if b is not None and c.op == "const":
        return const(not b)
    if c.op == "not":
        return c.a[0]
    inv = {"lt": "ge", "ge": "lt", "gt": "le", "le": "gt", "eq": "ne", "ne": "eq", "is": "isnot", "isnot": "is",
           "in": "notin", "notin": "in"}
    if c.op in ("is", "isnot", "in", "notin", "eq", "ne"):
        return mk(inv[c.op], *c.a)
    if c.op == "and":
        return mk("or", *[negate(x) for x in c.a])
    if c.op == "or":
        return mk("and", *[negate(x) for x in c.a])
    return mk("not", c)


def conj(*cs):
    out = []
    for c in cs:
        if c.op == "and":
            out.extend(c.a)
        elif c is TRUE:
            pass
        elif c is FALSE:
            return FALSE
        else:
            out.append(c)
    res = []
    for c in out:
        if c not in res:
            if negate(c) in res:
                return FALSE
            res.append(c)
    if not res:
        return TRUE
    if len(res) == 1:
        return res[0]
    return mk("and", *res)


def disj(*cs):
    return negate(conj(*[negate(c) for c in cs]))


def ite(c, a, b):
    if a is b:
        return a
    bv = boolval(c) if c.op == "const" else None
    if bv is True:
        return a
    if bv is False:
        return b
    if c.op == "not":
        return ite(c.a[0], b, a)
    if c.op in ("isnot", "ne", "notin"):
        return ite(negate(c), b, a)
    if a.op == "ite" and a.a[0] is c:
        a = a.a[1]
    if b.op == "ite" and b.a[0] is c:
        b = b.a[2]
    if a is b:
        return a
    # ite(c, TRUE, FALSE) stays a value; conditions use truth() below
    return mk("ite", c, a, b)


def truth(t):
    """Condition term of a value term."""
    r = _tru.get(t)
    if r is None:
        r = _tru[t] = _truth(t)
    return r


def _truth(t):
    if t.op == "ite":
        c, a, b = t.a
        ta, tb = truth(a), truth(b)
        if ta is TRUE and tb is FALSE:
            return c
        if ta is FALSE and tb is TRUE:
            return negate(c)
        if ta is FALSE:
            return conj(negate(c), tb)
        if tb is FALSE:
            return conj(c, ta)
        if ta is TRUE:
            return disj(c, tb)
        if tb is TRUE:
            return disj(negate(c), ta)
        return t
    b = boolval(t)
    if b is not None:
        return const(b)
    if t.op in ("div", "sub", "pow", "neg"):       # a number
        return mk("ne", t, const(0))
    return t


def subterms(t, seen=None):
    """All distinct subterms (preorder)."""
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        for y in _children(x):
            if y not in seen:
                stack.append(y)


def _children(x):
    for y in x.a:
        if isinstance(y, T):
            yield y
        elif isinstance(y, tuple):
            for z in _flat(y):
                yield z


def _flat(y):
    for z in y:
        if isinstance(z, T):
            yield z
        elif isinstance(z, tuple):
            for w in _flat(z):
                yield w


def contains(t, pred):
    if not callable(pred):
        target = pred
        return any(x is target for x in subterms(t))
    return any(pred(x) for x in subterms(t))


def rewrite(t, fn, memo=None):
    """Bottom-up rewriting; fn(term) returns a term or None to keep."""
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r

    def go(y):
        if isinstance(y, T):
            return rewrite(y, fn, memo)
        if isinstance(y, tuple):
            return tuple(go(z) for z in y)
        return y

    na = tuple(go(y) for y in t.a)
    if t.op == "ite":
        n = ite(*na)
    elif na == t.a:
        n = t
    else:
        n = mk(t.op, *na)
    r = fn(n)
    if r is None:
        r = n
    memo[t] = r
    return r


def subst(t, mapping):
    return rewrite(t, lambda x: mapping.get(x))


def topdown(t, fn, memo=None):
    """Top-down rewriting: fn(term) returns a replacement (not revisited) or None."""
    if memo is None:
        memo = {}
    if t in memo:
        return memo[t]
    r = fn(t)
    if r is None:
        def go(y):
            if isinstance(y, T):
                return topdown(y, fn, memo)
            if isinstance(y, tuple):
                return tuple(go(z) for z in y)
            return y
        na = tuple(go(y) for y in t.a)
        if na == t.a:
            r = t
        elif t.op == "ite":
            r = ite(*na)
        else:
            r = mk(t.op, *na)
    memo[t] = r
    return r


INF = {"add": "+", "sub": "-", "mul": "*", "div": "/", "pow": "**", "mod": "%", "floordiv": "//", "lt": "<", "le": "<=",
       "gt": ">", "ge": ">=", "eq": "==", "ne": "!=", "is": " is ", "isnot": " is not ", "in": " in ",
       "notin": " not in ", "and": " and ", "or": " or ", "matmul": "@", "bitor": "|", "bitand": "&"}


def show(t, depth=6):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ",".join(show(x, depth) for x in t) + ")"
        return str(t)
    if depth <= 0:
        return "…"
    d = depth - 1
    if t.op == "const":
        return repr(t.a[0])
    if t.op == "sym":
        return str(t.a[0])
    if t.op in INF:
        return "(" + INF[t.op].join(show(x, d) for x in t.a) + ")"
    if t.op == "attr":
        return "%s.%s" % (show(t.a[0], d), t.a[1])
    if t.op == "idx":
        return "%s[%s]" % (show(t.a[0], d), show(t.a[1], d))
    if t.op == "ref":
        return "#%s%s" % (t.a[1], t.a[0])
    if t.op == "call":
        return "%s(%s)" % (t.a[0], ", ".join([show(x, d) for x in t.a[1]] + ["%s=%s" % (k, show(v, d)) for k, v in t.a[2]]))
    if t.op == "mcall":
        return "%s.%s(%s)%s" % (show(t.a[1], d), t.a[0],
                              ", ".join([show(x, d) for x in t.a[2]] + ["%s=%s" % (k, show(v, d)) for k, v in t.a[3]]),
                              "" if not t.a[4] else "@%s" % t.a[4])
    if t.op == "not":
        return "not " + show(t.a[0], d)
    if t.op == "neg":
        return "-" + show(t.a[0], d)
    return "%s(%s)" % (t.op, ", ".join(show(x, d) for x in t.a))
