"""Entries of matrices built from known parts: pure functions on terms without references."""
from .terms import NONE, T, const, ite, mk

LIMIT = 24
WRAP = {"numpy." + n for n in "array asarray asanyarray matrix asmatrix copy float64".split()}
ZEROS = {"numpy.zeros": 0.0, "numpy.ones": 1.0, "numpy.empty": None}


def whole(t):
    return t.op == "const" and isinstance(t.a[0], int) and not isinstance(t.a[0], bool)


def ints(t):
    if whole(t):
        return (t.a[0],)
    if t.op in ("tuple", "list") and all(whole(x) for x in t.a):
        return tuple(x.a[0] for x in t.a)
    return None


def dims(t):
    """(rows, columns) of a known matrix, else None."""
    o = t.op
    if o in ("list", "tuple"):
        if not t.a or any(not isinstance(x, T) or x.op == "star" for x in t.a) or len(t.a) > LIMIT:
            return None
        rows = [rowlen(x) for x in t.a]
        return (len(t.a), rows[0]) if None not in rows and len(set(rows)) == 1 else None
    if o == "call":
        n, a = t.a[0], t.a[1]
        if n in WRAP and a:
            return dims(a[0])
        if n in ZEROS and a:
            s = ints(a[0])
            return s if s and len(s) == 2 and max(s) <= LIMIT else None
        if n in ("numpy.eye", "numpy.identity") and a and whole(a[0]) and a[0].a[0] <= LIMIT:
            if len(a) == 1:
                return (a[0].a[0],) * 2
            return (a[0].a[0], a[1].a[0]) if len(a) == 2 and whole(a[1]) else None
        if n in ("numpy.zeros_like", "numpy.ones_like", "numpy.empty_like", "numpy.sqrt", "numpy.abs", "numpy.negative") and a:
            return dims(a[0])
        if n == "numpy.transpose" and len(a) == 1:
            d = dims(a[0])
            return d and d[::-1]
        if n in ("numpy.dot", "numpy.matmul") and len(a) == 2:
            p, q = dims(a[0]), dims(a[1])
            return (p[0], q[1]) if p and q and p[1] == q[0] else None
        if n == "numpy.linalg.multi_dot" and len(a) == 1 and a[0].op in ("list", "tuple") and a[0].a:
            return dims(chain(a[0].a))
        if n == "numpy.outer" and len(a) == 2 and all(x.op in ("list", "tuple") for x in a):
            return (len(a[0].a), len(a[1].a))
        return None
    if o == "attr" and t.a[1] == "T":
        d = dims(t.a[0])
        return d and d[::-1]
    if o == "upd":
        return dims(t.a[0])
    if o == "neg":
        return dims(t.a[0])
    if o == "matmul" or o == "mul" and (ismatrix(t.a[0]) and dims(t.a[0]) and dims(t.a[1])):
        p, q = dims(t.a[0]), dims(t.a[1])
        return (p[0], q[1]) if p and q and p[1] == q[0] else None
    if o in ("add", "sub", "mul", "div"):
        p, q = dims(t.a[0]), dims(t.a[1])
        if p and q:
            return p if p == q else None
        return p or q
    if o == "ite":
        p, q = dims(t.a[1]), dims(t.a[2])
        return p if p == q else None
    return None


def rowlen(t):
    while t.op == "call" and t.a[0] in WRAP and t.a[1]:
        t = t.a[1][0]
    if t.op in ("list", "tuple") and not any(not isinstance(x, T) or x.op == "star" for x in t.a):
        return len(t.a)
    return None


def chain(xs):
    out = xs[0]
    for x in xs[1:]:
        out = mk("call", "numpy.dot", (out, x), ())
    return out


def ismatrix(t):
    """Is `*` with this operand the matrix product?"""
    o = t.op
    if o == "call":
        if t.a[0] in ("numpy.matrix", "numpy.asmatrix"):
            return True
        if t.a[0] in ("numpy.transpose", "numpy.copy", "numpy.dot", "numpy.matmul") and t.a[1]:
            return any(ismatrix(x) for x in t.a[1])
        return False
    if o == "attr" and t.a[1] == "T" or o in ("upd", "neg"):
        return ismatrix(t.a[0])
    if o in ("mul", "add", "sub", "matmul", "div"):
        return ismatrix(t.a[0]) or ismatrix(t.a[1])
    if o == "ite":
        return ismatrix(t.a[1]) and ismatrix(t.a[2])
    return False


def entry(t, i, j, memo=None):
    """Term of one entry of a known matrix, None if not evident."""
    if memo is None:
        memo = {}
    k = (t, i, j)
    if k not in memo:
        memo[k] = entry_(t, i, j, memo)
    return memo[k]


def entry_(t, i, j, memo):
    d = dims(t)
    if d is None:
        return None
    if i < 0:
        i += d[0]
    if j < 0:
        j += d[1]
    if not (0 <= i < d[0] and 0 <= j < d[1]):
        return None
    o = t.op
    if o in ("list", "tuple"):
        r = t.a[i]
        while r.op == "call":
            r = r.a[1][0]
        return r.a[j]
    if o == "call":
        n, a = t.a[0], t.a[1]
        if n in WRAP:
            return entry(a[0], i, j, memo)
        if n in ZEROS:
            return const(ZEROS[n]) if ZEROS[n] is not None else None
        if n == "numpy.zeros_like":
            return const(0.0)
        if n == "numpy.ones_like":
            return const(1.0)
        if n in ("numpy.eye", "numpy.identity"):
            return const(1.0 if i == j else 0.0)
        if n in ("numpy.sqrt", "numpy.abs"):
            x = entry(a[0], i, j, memo)
            return x and mk("call", n, (x,), ())
        if n == "numpy.negative":
            x = entry(a[0], i, j, memo)
            return x and mk("neg", x)
        if n == "numpy.transpose":
            return entry(a[0], j, i, memo)
        if n in ("numpy.dot", "numpy.matmul"):
            return product(a[0], a[1], i, j, memo)
        if n == "numpy.linalg.multi_dot":
            return entry(chain(a[0].a), i, j, memo)
        if n == "numpy.outer":
            return mk("mul", a[0].a[i], a[1].a[j])
        return None
    if o == "attr":
        return entry(t.a[0], j, i, memo)
    if o == "neg":
        x = entry(t.a[0], i, j, memo)
        return x and mk("neg", x)
    if o == "ite":
        x, y = entry(t.a[1], i, j, memo), entry(t.a[2], i, j, memo)
        return None if x is None or y is None else ite(t.a[0], x, y)
    if o == "matmul" or o == "mul" and ismatrix(t) and dims(t.a[0]) and dims(t.a[1]):
        return product(t.a[0], t.a[1], i, j, memo)
    if o in ("add", "sub", "mul", "div"):
        x, y = [entry(z, i, j, memo) if dims(z) else (z if scalar(z) else None) for z in t.a]
        return None if x is None or y is None else mk(o, x, y)
    if o == "upd":
        return updated(t, i, j, d, memo)
    return None


def scalar(t):
    return t.op in ("const", "sym", "idx", "add", "sub", "mul", "div", "call", "pow")


def product(a, b, i, j, memo):
    p, q = dims(a), dims(b)
    if not p or not q or p[1] != q[0]:
        return None
    out = None
    for k in range(p[1]):
        x, y = entry(a, i, k, memo), entry(b, k, j, memo)
        if x is None or y is None:
            return None
        if any(z.op == "const" and z.a[0] == 0 for z in (x, y)):
            continue
        z = y if x.op == "const" and x.a[0] == 1 else x if y.op == "const" and y.a[0] == 1 else mk("mul", x, y)
        out = z if out is None else mk("add", out, z)
    return out if out is not None else const(0.0)


def span(k, n):
    """Positions along one axis selected by a key, None if not evident."""
    if whole(k):
        return [k.a[0] % n] if -n <= k.a[0] < n else None
    if k.op == "slice" and all(x is NONE or whole(x) for x in k.a):
        return list(range(n))[slice(*[None if x is NONE else x.a[0] for x in k.a])]
    while k.op == "call" and k.a[0] in WRAP and k.a[1]:
        k = k.a[1][0]
    if k.op in ("list",) and all(x.op == "const" and isinstance(x.a[0], bool) for x in k.a) and len(k.a) == n:
        return [p for p, x in enumerate(k.a) if x.a[0]]
    if k.op == "list" and all(whole(x) for x in k.a):
        return [x.a[0] for x in k.a]
    return None


def grid(k, d):
    """numpy.ix_(a, b), a pair of slices or integers -> (rows, columns, kinds)."""
    if k.op == "call" and k.a[0] == "numpy.ix_" and len(k.a[1]) == 2:
        ks, kinds = k.a[1], (1, 1)
    elif k.op == "tuple" and len(k.a) == 2:
        ks = k.a
        kinds = tuple(0 if whole(x) else 1 for x in ks)
        if all(kinds) and not any(x.op == "slice" for x in ks):      # paired fancy indices
            return None
    elif whole(k) or k.op == "slice":
        ks, kinds = (k, mk("slice", NONE, NONE, NONE)), (0 if whole(k) else 1, 1)
    else:
        return None
    r, c = span(ks[0], d[0]), span(ks[1], d[1])
    return None if r is None or c is None else (r, c, kinds)


def updated(t, i, j, d, memo):
    b, k, v = t.a
    if k.op == "ite":
        x = updated(mk("upd", b, k.a[1], v), i, j, d, memo)
        y = updated(mk("upd", b, k.a[2], v), i, j, d, memo)
        return None if x is None or y is None else ite(k.a[0], x, y)
    g = grid(k, d)
    if g is None:
        return None
    rows, cols, kinds = g
    if i not in rows or j not in cols:
        return entry(b, i, j, memo)
    r, c = rows.index(i), cols.index(j)
    if kinds == (0, 0):
        return v
    vd = dims(v)
    if vd is not None:
        if kinds != (1, 1) or vd != (len(rows), len(cols)):
            return None
        return entry(v, r, c, memo)
    n = rowlen(v)
    if n is not None:
        at = c if kinds[1] else r
        if kinds == (1, 1) and n != len(cols) or kinds != (1, 1) and n != (len(cols) if kinds[1] else len(rows)):
            return None
        while v.op == "call":
            v = v.a[1][0]
        return v.a[at]
    return v if v.op == "const" else None


def select(t, k):
    """t[k] for a known matrix and key, None if not evident."""
    d = dims(t)
    if d is None:
        return None
    if k.op == "tuple" and len(k.a) == 2 and all(whole(x) for x in k.a):
        return entry(t, k.a[0].a[0], k.a[1].a[0])
    if t.op in ("list", "tuple"):
        return None
    g = grid(k, d)
    if g is None or ismatrix(t):
        return None
    rows, cols, kinds = g
    memo = {}
    out = [[entry(t, i, j, memo) for j in cols] for i in rows]
    if any(x is None for r in out for x in r):
        return None
    if kinds == (1, 1):
        return mk("call", "numpy.array", (mk("list", *[mk("list", *r) for r in out]),), ())
    return mk("call", "numpy.array", (mk("list", *(out[0] if kinds[1] else [r[0] for r in out])),), ())
