"""Flow-sensitive, interprocedural abstract interpreter over the package's AST.

Every function is evaluated once per call chain into *gated value numbers*: at
a merge of two branches the states are joined with ``ite`` terms, loops get one
abstract iteration with loop-carried variables replaced by ``phi`` terms, and
callees whose target is known are inlined.  No path is enumerated, nothing is
executed and no solver is asked; the result is a log of effects (attribute
stores, element stores, list mutations, calls, raises) with the conditions they
are control dependent on, and terms for every value.
"""
import ast
import re

from . import arrays, matrix, text
from .project import ClassInfo, FuncInfo, Module
from .terms import FALSE, NONE, TRUE, T, _children, boolval, conj, const, contains, disj, ite, mk, negate, rewrite, show, subst, subterms, truth

BUILTIN_EXC = {}
for _n in dir(__builtins__) if not isinstance(__builtins__, dict) else list(__builtins__):
    _o = getattr(__builtins__, _n, None) if not isinstance(__builtins__, dict) else __builtins__[_n]
    if isinstance(_o, type) and issubclass(_o, BaseException):
        BUILTIN_EXC[_n] = [c.__name__ for c in _o.__mro__]

import builtins as _b
BUILTINS = set(dir(_b))

# numpy/builtin calls which allocate a new array or list
FRESH_CALLS = {"numpy." + n for n in (
    "array zeros ones empty zeros_like ones_like empty_like full identity eye arange linspace copy concatenate "
    "delete insert append matrix sort argsort unique interp diff cumsum repeat tile asmatrix vstack hstack "
    "power sqrt exp log sin cos abs").split()}
ELEMENTWISE = {"numpy." + n for n in "power sqrt exp log sin cos abs".split()}
FRESH_CALLS -= ELEMENTWISE

PURE_METHODS = set("""argsort copy sum max min any all astype ravel flatten keys values items index find strip lstrip
rstrip split rsplit splitlines join format startswith endswith get group groups end start searchsorted transpose tolist
lower upper decode encode count mean std ptp argmin argmax nonzero reshape squeeze dot cumsum conj real imag issubset
union intersection difference isdigit replace partition zfill title match search fullmatch""".split())
LIST_MUT = set("append extend insert pop remove sort reverse clear update setdefault add discard popitem fill resize put itemset partition_ setflags".split())


class State(object):
    __slots__ = ("envs", "attrs", "content", "guard")

    def __init__(self, envs, attrs, content, guard):
        self.envs, self.attrs, self.content, self.guard = envs, attrs, content, guard

    def copy(self):
        return State([dict(e) for e in self.envs], dict(self.attrs), dict(self.content), self.guard)


class Event(object):
    __slots__ = ("kind", "node", "fn", "guard", "loops", "data", "chain", "seq", "handlers")

    def __init__(self, kind, node, fn, guard, loops, data, chain, seq, handlers):
        self.kind, self.node, self.fn, self.guard, self.loops, self.data = kind, node, fn, guard, loops, data
        self.chain, self.seq, self.handlers = chain, seq, handlers

    def __getattr__(self, k):
        try:
            return self.data[k]
        except KeyError:
            raise AttributeError(k)

    @property
    def where(self):
        return "%s:%s" % (self.fn.module.relpath, getattr(self.node, "lineno", self.fn.node.lineno))

    def __repr__(self):
        return "<%s %s %s>" % (self.kind, self.where, {k: show(v) if isinstance(v, T) else v for k, v in self.data.items()})


class Exit(object):
    def __init__(self, kind, value, state, node, fn, chain, exc=None, seq=0):
        self.kind, self.value, self.state, self.node, self.fn, self.chain, self.exc, self.seq = kind, value, state, node, fn, chain, exc, seq

    @property
    def guard(self):
        return self.state.guard

    @property
    def where(self):
        return "%s:%s" % (self.fn.module.relpath, getattr(self.node, "lineno", 0))


class Result(object):
    def __init__(self, interp, exits, events):
        self.interp, self.exits, self.events = interp, exits, events

    @property
    def returns(self):
        return [e for e in self.exits if e.kind == "return"]

    @property
    def raises(self):
        return [e for e in self.exits if e.kind == "raise"]

    def final(self):
        """(value, state) joined over the normal exits, value deep-resolved."""
        rs = self.returns
        if not rs:
            return None, None
        v, st = self.interp.join_exits(rs, ())
        return self.interp.deep(v, st), st

    def calls(self, name=None):
        for e in self.events:
            if e.kind == "call" and (name is None or e.data["name"] == name):
                yield e


class _Loop(object):
    def __init__(self):
        self.breaks, self.conts = [], []


class _Try(object):
    def __init__(self, depth, handlers):
        self.depth, self.handlers, self.snaps = depth, handlers, []   # snaps: (state, excset or None, events?)


class Config(object):
    """opaque(func, recv, interp)->bool: do not inline.  typeof(term, interp)->ClassInfo|None.
    pure: method names treated as pure when unresolved."""

    def __init__(self, opaque=None, typeof=None, pure=(), maxdepth=12, fields=None, elems=None, unroll=40, hook=None,
                 returns=None, nonnull=True, stubs=None, accidents=True, text=False, recursion=1,
                 loops=0, arrays=False, number=None, neutral=False, decide=None):
        self.decide = decide         # truth of a comparison nothing is known about, or None
        self.neutral = neutral       # adding nothing to a number gives it
        self.arrays = arrays         # follow known arrays element by element (arrays.py)
        self.number = number         # calls that yield a number
        self.loops = loops           # iterations of a while loop to follow one by one
        self.recursion = recursion   # how often a function may be inlined within itself
        self.text = text             # fold on texts with holes (text.py)
        self.accidents = accidents   # False: code fails only where it, or an unknown callee, says so
        self.stubs = stubs or {}     # 'Class.method' -> FuncInfo analysed in its place
        self.opaque = opaque or (lambda f, r, i: False)
        self._typeof = typeof
        self.pure = set(pure)
        self.maxdepth = maxdepth
        self.fields = fields or {}
        self.elems = elems or {}
        self.unroll = unroll
        self.hook = hook
        self.returns = returns or {}


def total(x, y, sign):
    """A sum of numbers, whichever way it is written."""
    count = {}

    def put(t, k):
        if t.op == "add" and len(t.a) == 2:
            put(t.a[0], k), put(t.a[1], k)
        elif t.op == "sub":
            put(t.a[0], k), put(t.a[1], -k)
        else:
            count[t] = count.get(t, 0) + k
    put(x, 1), put(y, sign)
    c = sum(t.a[0] * k for t, k in count.items() if t.op == "const")
    terms = sorted([(t, k) for t, k in count.items() if k and t.op != "const"], key=lambda z: (z[1] < 0, z[0].n))
    out = const(c) if c or not terms else None
    for t, k in terms:
        u = t if abs(k) == 1 else mk("mul", const(abs(k)), t)
        out = (u if k > 0 else mk("neg", u)) if out is None else mk("add" if k > 0 else "sub", out, u)
    return out


class Interp(text.Texts, arrays.Arrays):
    def __init__(self, project, config=None):
        self.steploops = {}
        self.p = project
        self.cfg = config or Config()
        self.uid = 0
        self.loopid = 0
        self.objects = set()    # symbols which stand for known objects
        self.classof = {}       # ref/sym term -> ClassInfo
        self.closures = {}
        self.kind = {}          # ref -> 'list'|'dict'|'arr'|'obj'|'set'
        self.alloc = {}         # ref -> (node, fn)
        self.spaces = {}        # loop id -> space term
        self.funcs = {}
        self.seq = 0
        self.notes = []

    # ---- driver -----------------------------------------------------------
    def run(self, func, args=None, self_term=None, attrs=None, content=None, kwargs_sym=True, guard=()):
        """Analyse one function with symbolic (or given) arguments."""
        self.events = []
        self.root_exits = []
        self.tries = []
        self.loops = []
        self.loopframes = []
        self.stack = []          # activations: (FuncInfo, node, lexdepth)
        self.muted = 0
        self.handlers = []
        self.st = State([], dict(attrs or {}), dict(content or {}), tuple(guard))
        env = self._bind_root(func, args or {}, self_term)
        exits = self._exec_function(func, func.node, env, None)
        for (v, st, node) in exits:
            self.root_exits.append(Exit("return", v, st, node, func, (), None))
        if self.st is not None:
            pass
        return Result(self, self.root_exits, self.events)

    def _bind_root(self, func, given, self_term):
        a = func.node.args
        env = {}
        names = [x.arg for x in a.posonlyargs + a.args]
        if func.cls and not func.static and names:
            t = self_term
            if t is None:
                t = mk("sym", "self")
            if t not in self.classof:
                self.classof[t] = func.cls
            env[names[0]] = t
            names = names[1:]
        for n in names + [x.arg for x in a.kwonlyargs]:
            env[n] = given[n] if n in given else mk("sym", n)
        if a.vararg:
            env[a.vararg.arg] = given.get(a.vararg.arg, mk("sym", a.vararg.arg))
        if a.kwarg:
            env[a.kwarg.arg] = given.get(a.kwarg.arg, mk("sym", a.kwarg.arg))
        return env

    # ---- helpers -----------------------------------------------------------
    def fresh(self, kind, cls=None, node=None, content=None):
        self.uid += 1
        r = mk("ref", self.uid, cls.name if cls else kind)
        self.kind[r] = kind
        if cls:
            self.classof[r] = cls
        self.alloc[r] = (node, self.stack[-1][0] if self.stack else None)
        if content is not None:
            self.st.content[r] = content
        return r

    def log(self, kind, node, **data):
        if self.muted:
            return None
        self.seq += 1
        e = Event(kind, node, self.stack[-1][0], self.st.guard, tuple(self.loops), data,
                  tuple(s[0].short for s in self.stack), self.seq, tuple(self.handlers))
        self.events.append(e)
        return e

    @property
    def env(self):
        return self.st.envs[-1]

    def val(self, t, st=None):
        """Dereference a term to its current content (one level)."""
        st = st or self.st
        r = st.content.get(t)
        if r is not None:
            return r
        if t.op == "ite":
            return self._val_ite(t, st.content, {})
        return t

    def _val_ite(self, t, content, memo):
        r = memo.get(t)
        if r is None:
            r = content.get(t)
            if r is None:
                r = t
                if t.op == "ite":
                    a, b = self._val_ite(t.a[1], content, memo), self._val_ite(t.a[2], content, memo)
                    if a is not t.a[1] or b is not t.a[2]:
                        r = ite(t.a[0], a, b)
            memo[t] = r
        return r

    @staticmethod
    def fanout(t, limit=8):
        """Number of leaves of a tree of gates, counted along paths, up to a limit."""
        memo = {}

        def n(x):
            if x.op != "ite":
                return 0 if x is NONE or x.op == "undef" else 1
            if x not in memo:
                memo[x] = n(x.a[1]) + n(x.a[2])
            return memo[x]
        return n(t) <= limit

    def spread(self, fn, *vs, **kw):
        """fn over the branches of gated arguments; None where fn has no answer, or there are too many branches."""
        leaves = 1
        for v in vs:
            if v.op == "ite":
                if not self.fanout(v, 24):
                    return None
                leaves *= sum(1 for _ in subterms(v) if _.op == "ite") + 1
        if leaves > 64:
            return None
        none = []

        def go(vs, given):
            if none:
                return None
            for k, v in enumerate(vs):
                if v.op == "ite":
                    c = self.known(v.a[0])
                    if c in given:
                        c = TRUE if given[c] else FALSE
                    if c is TRUE or c is FALSE:
                        return go(vs[:k] + (v.a[1 if c is TRUE else 2],) + vs[k + 1:], given)
                    a = go(vs[:k] + (v.a[1],) + vs[k + 1:], dict(given, **{}) | {c: True})
                    b = go(vs[:k] + (v.a[2],) + vs[k + 1:], dict(given) | {c: False})
                    return ite(c, a, b) if a is not None and b is not None else None
            r = fn(*vs)
            if r is None:
                none.append(1)
            return r
        return go(vs, {})

    def deep(self, t, st=None):
        """Replace every reference inside a term by its content."""
        st = st or self.st
        busy = set()
        memo = {}
        memob = {}
        hits = [0]

        def go(x):
            if isinstance(x, tuple):
                return tuple(go(y) for y in x)
            if not isinstance(x, T):
                return x
            if x in memo:
                return memo[x]
            if x in busy:
                hits[0] += 1
                return x if x.op == "ref" or x.op == "sym" else self._rebuild(x, go)
            k = (x, frozenset(busy))
            if k in memob:
                hits[0] += 1
                return memob[k]
            h = hits[0]
            if x in st.content:
                busy.add(x)
                r = go(st.content[x])
                busy.discard(x)
            else:
                r = self._rebuild(x, go)
            if hits[0] == h:
                memo[x] = r
            else:
                memob[k] = r
            return r
        return go(t)

    @staticmethod
    def _rebuild(x, go):
        na = tuple(go(y) if isinstance(y, (T, tuple)) else y for y in x.a)
        if na == x.a:
            return x
        return ite(*na) if x.op == "ite" else mk(x.op, *na)

    def typeof(self, t, st=None):
        c = self.classof.get(t)
        if c is not None:
            return c
        if self.cfg._typeof:
            c = self.cfg._typeof(t, self)
            if c is not None:
                return c
        if t.op == "attr":
            bc = self.typeof(t.a[0])
            if bc is not None:
                for k in bc.mro:
                    if isinstance(k, ClassInfo) and (k.name, t.a[1]) in self.cfg.fields:
                        return self._cls(self.cfg.fields[(k.name, t.a[1])])
        if t.op == "idx":
            bc = self.typeof(t.a[0])
            if bc is not None:
                for k in bc.mro:
                    if isinstance(k, ClassInfo) and k.name in self.cfg.elems:
                        if t.a[1].op == "slice":
                            return bc
                        return self._cls(self.cfg.elems[k.name])
        if t.op == "ite":
            found = None
            seen = set()
            todo = [t]
            while todo:
                x = todo.pop()
                if x in seen or x is NONE or x.op == "undef":
                    continue
                seen.add(x)
                if x.op == "ite":
                    todo += [x.a[1], x.a[2]]
                    continue
                cx = self.typeof(x)
                if cx is None or (found is not None and cx is not found):
                    return None
                found = cx
            return found
        if t.op == "mcall":
            bc = self.typeof(t.a[1])
            if bc is not None:
                for k in bc.mro:
                    if isinstance(k, ClassInfo) and (k.name, t.a[0]) in self.cfg.returns:
                        r = self.cfg.returns[(k.name, t.a[0])]
                        return bc if r == "self" else self._cls(r)
        if t.op == "phi":
            return self.typeof(t.a[2]) if isinstance(t.a[2], T) else None
        if t.op in ("loop",):
            return self.typeof(t.a[3])
        if t.op == "call" and t.a[0] in self.cfg.returns:
            return self._cls(self.cfg.returns[t.a[0]])
        return None

    def _cls(self, n):
        return n if isinstance(n, ClassInfo) else self.p.classes.get(n)

    # ---- joins ---------------------------------------------------------------
    def _cond(self, st, base):
        return conj(*[g for g in st.guard if g not in base])

    def join2(self, c, a, b, guard):
        if a is None:
            return b
        if b is None:
            return a
        n = min(len(a.envs), len(b.envs))
        envs = []
        for i in range(n):
            ea, eb = a.envs[i], b.envs[i]
            e = {}
            for k in ea:
                if k in eb:
                    e[k] = ite(c, ea[k], eb[k])
                else:
                    e[k] = ite(c, ea[k], mk("undef", k))
            for k in eb:
                if k not in ea:
                    e[k] = ite(c, mk("undef", k), eb[k])
            envs.append(e)
        attrs = {}
        for k in set(a.attrs) | set(b.attrs):
            x = a.attrs.get(k)
            y = b.attrs.get(k)
            if x is None:
                x = mk("attr", *k) if k[0] not in self.alloc or k[0] in b.attrs else mk("undef", k[1])
            if y is None:
                y = mk("attr", *k) if k[0] not in self.alloc else mk("undef", k[1])
            attrs[k] = ite(c, x, y)
        content = {}
        for k in set(a.content) | set(b.content):
            x, y = a.content.get(k), b.content.get(k)
            if k in self.alloc:     # allocated on one side only
                x, y = (x if x is not None else y), (y if y is not None else x)
            if self.cfg.arrays and x is not None and y is not None and x is not y and x.op == y.op == "dict" and len(x.a) == len(y.a) and all(p[0] is q[0] and ground(p[0]) for p, q in zip(x.a, y.a)):
                content[k] = mk("dict", *[(p[0], ite(c, p[1], q[1])) for p, q in zip(x.a, y.a)])
                continue
            content[k] = ite(c, x if x is not None else k, y if y is not None else k)
        return State(envs, attrs, content, guard)

    def join_many(self, states, base):
        states = [s for s in states if s is not None]
        if not states:
            return None
        if len(states) == 1:
            return states[0]
        cur = states[-1]
        for s in reversed(states[:-1]):
            cur = self.join2(self._cond(s, base), s, cur, base)
        return cur

    def join_exits(self, exits, base):
        """exits: [Exit or (value,state)] -> (value, state)"""
        pairs = [(e.value, e.state) if isinstance(e, Exit) else (e[0], e[1]) for e in exits]
        v, cur = pairs[-1]
        for (w, s) in reversed(pairs[:-1]):
            c = self._cond(s, base)
            v = ite(c, w, v)
            cur = self.join2(c, s, cur, base)
        return v, cur

    def known(self, c):
        """Truth of condition c under the current guard, or c."""
        if c.op == "const":
            return truth(c)
        g = self.st.guard
        if c in g:
            return TRUE
        n = negate(c)
        if n in g:
            return FALSE
        if c.op == "and":
            return conj(*[self.known(x) for x in c.a])
        if c.op == "or":
            return disj(*[self.known(x) for x in c.a])
        if c.op in ("lt", "le"):
            if mk("lt", c.a[0], c.a[1]) in g:
                return TRUE
            if mk("lt", c.a[1], c.a[0]) in g or c.op == "lt" and mk("le", c.a[1], c.a[0]) in g:
                return FALSE
        if self.cfg.arrays:
            k = arrays.follows(c, g)
            if k is not None:
                return const(k)
        if c.op == "not" and n.op in ("lt", "le"):
            k = self.known(n)
            return TRUE if k is FALSE else FALSE if k is TRUE else c
        # x is None  vs  guard  x is not <other>
        if c.op in ("is", "eq") and c.a[1].op == "const":
            for h in g:
                if h.op in ("is", "eq") and h.a[0] is c.a[0] and h.a[1].op == "const" and h.a[1] is not c.a[1]:
                    return FALSE
        if self.cfg.decide is not None and c.op in ("lt", "le", "eq"):
            k = self.cfg.decide(c)
            if k is not None:
                return const(k)
        return c

    # ---- functions -------------------------------------------------------------
    def _exec_function(self, func, node, env, lexdepth):
        """Push an activation, execute; returns [(value, state(with env popped), node)]; sets self.st to None."""
        depth = len(self.st.envs)
        self.st.envs.append(env)
        self.stack.append((func, node, lexdepth, depth))
        frame = []
        self.stack[-1] = self.stack[-1] + (frame,)
        lf, self.loopframes = self.loopframes, []
        if isinstance(node, ast.Lambda):
            v = self.eval(node.body)
            if self.st is not None:
                frame.append((v, self.st, node))
        else:
            self.exec_block(node.body)
            if self.st is not None:
                frame.append((NONE, self.st, node))
        self.loopframes = lf
        self.stack.pop()
        out = []
        for (v, st, n) in frame:
            st.envs = st.envs[:depth]
            out.append((v, st, n))
        self.st = None
        return out

    def inline(self, func, node, env, lexdepth=None):
        base = self.st.guard
        exits = self._exec_function(func, node, env, lexdepth)
        if not exits:
            self.st = None
            return NONE
        v, st = self.join_exits(exits, base)
        if len(exits) > 1:
            st.guard = base if st.guard != base and not self._common(exits, base) else base + self._common(exits, base)
        self.st = st
        return v

    @staticmethod
    def _common(exits, base):
        gs = [tuple(g for g in e[1].guard if g not in base) for e in exits]
        first = gs[0]
        return tuple(g for g in first if all(g in h for h in gs[1:]))

    def bind(self, func, args, kwargs, node, selfterm=None, fnode=None):
        """args: [term|('*',term)], kwargs: {name: term} with '**' -> list of terms.  None if arity is unknown/wrong."""
        fnode = fnode or func.node
        self.misfit = False
        a = fnode.args
        params = [x.arg for x in a.posonlyargs + a.args]
        pos = list(args)
        if selfterm is not None:
            pos = [selfterm] + pos
        flat = []
        for x in pos:
            if isinstance(x, tuple):
                items = self.items_of(x[1])
                if items is None:
                    return None
                flat.extend(items)
            else:
                flat.append(x)
        self.misfit = True      # if this fails from here on, the call fails
        env = {}
        extra = []
        for i, v in enumerate(flat):
            if i < len(params):
                env[params[i]] = v
            else:
                extra.append(v)
        kw = {k: v for k, v in kwargs.items() if k != "**"}
        unknown_kw = []
        for d in kwargs.get("**", ()):
            dv = self.val(d)
            if dv.op == "dict" and all(k.op == "const" for k, _ in dv.a):
                for k, v in dv.a:
                    kw[k.a[0]] = v
            else:
                unknown_kw.append(d)
        names = params + [x.arg for x in a.kwonlyargs]
        rest = []
        for k, v in kw.items():
            if k in names and k not in env:
                env[k] = v
            else:
                rest.append((const(k), v))
        if extra and not a.vararg:
            return None
        if rest and not a.kwarg:
            return None
        if a.vararg:
            env[a.vararg.arg] = mk("tuple", *extra)
        if a.kwarg:
            if unknown_kw:
                env[a.kwarg.arg] = unknown_kw[0] if not rest and len(unknown_kw) == 1 else mk("kwmerge", tuple(unknown_kw), tuple(rest))
            else:
                env[a.kwarg.arg] = self.fresh("dict", node=node, content=mk("dict", *rest))
        defaults = dict(zip(params[len(params) - len(a.defaults):], a.defaults))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defaults[x.arg] = d
        for n in names:
            if n not in env:
                if unknown_kw:
                    dflt = self.const_expr(defaults[n], func.module) if n in defaults else None
                    env[n] = mk("kwget", unknown_kw[0], n, dflt if dflt is not None else NONE)
                elif n in defaults:
                    env[n] = self.const_expr(defaults[n], func.module, func, n)
                else:
                    return None
        return env

    def const_expr(self, e, module, func=None, name=None):
        if isinstance(e, ast.Constant):
            return const(e.value)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub) and isinstance(e.operand, ast.Constant):
            return const(-e.operand.value)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "slice":
            xs = [self.const_expr(x, module) for x in e.args]
            return mk("slice", *([NONE] + xs + [NONE] if len(xs) == 1 else (xs + [NONE, NONE])[:3]))
        if func is not None and isinstance(e, (ast.List, ast.Dict)) and not (e.elts if isinstance(e, ast.List) else e.keys) and self.onlyread(func.node, name):
            return mk("list" if isinstance(e, ast.List) else "dict")
        if isinstance(e, (ast.List, ast.Dict, ast.Set)):
            return mk("defaultobj", func.qual if func else "?", name or "?")
        if isinstance(e, ast.Tuple):
            return mk("tuple", *[self.const_expr(x, module) for x in e.elts])
        if isinstance(e, (ast.Name, ast.Attribute)):
            r = self.p.resolve_expr(module, e)
            t = self.global_term(r, module, e.id if isinstance(e, ast.Name) else e.attr)
            if t is not None:
                return t
        return mk("sym", "default:" + ast.unparse(e))

    @staticmethod
    def mentions(m, name):
        """Could a module define this name at all?"""
        if name.startswith("__"):
            return True
        cache = m.__dict__.setdefault("_mentions", None)
        if cache is None:
            cache = m._mentions = {getattr(n, "id", None) or getattr(n, "attr", None) or getattr(n, "name", None) for n in ast.walk(m.tree)} | {
                a.asname or a.name for n in ast.walk(m.tree) if isinstance(n, (ast.Import, ast.ImportFrom)) for a in n.names}
        return name in cache or "*" in cache or "__getattr__" in cache

    def onlyread(self, f, name):
        """A parameter of f which it only iterates over, or looks things up in."""
        ok = set()
        for n in ast.walk(f):
            if isinstance(n, (ast.For, ast.comprehension)) and isinstance(n.iter, ast.Name):
                ok.add(n.iter)
            elif isinstance(n, ast.Compare) and all(isinstance(o, (ast.In, ast.NotIn)) for o in n.ops):
                ok.update(n.comparators)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("len", "sorted", "list", "tuple", "set", "dict", "enumerate", "zip"):
                ok.update(n.args)
        return all(n in ok for n in ast.walk(f) if isinstance(n, ast.Name) and n.id == name)

    def global_term(self, r, module, name):
        if r is None:
            return None
        if isinstance(r, FuncInfo):
            self.funcs[r.qual] = r
            return mk("func", r.qual)
        if isinstance(r, ClassInfo):
            self.funcs[r.qual] = r
            return mk("class", r.qual)
        if isinstance(r, Module):
            return mk("module", r.name)
        if isinstance(r, tuple):
            e, m = r[1], r[2]
            if isinstance(e, ast.Constant) and not self._rebound(m, name):
                return const(e.value)
            if isinstance(e, (ast.Name, ast.Attribute)) and not self._rebound(m, name):
                q = self.p.resolve_expr(m, e)
                if q is not None and not (isinstance(q, tuple) and q[1] is e):
                    return self.global_term(q, m, name)
            return mk("gvar", m.name, name)
        if isinstance(r, str):
            if "." not in r and r in BUILTINS:
                return mk("builtin", r)
            return mk("glob", r)
        return None

    def _rebound(self, m, name):
        cache = m.__dict__.setdefault("_globals", None)
        if cache is None:
            cache = set()
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Global):
                    cache.update(n.names)
            m._globals = cache
        return name in cache

    # ---- statements ---------------------------------------------------------------
    def exec_block(self, body):
        for s in body:
            if self.st is None:
                return
            self.exec(s)

    def exec(self, s):
        if self.tries:
            self.snap("builtin", s)
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            self.notes.append("statement %s not modelled" % type(s).__name__)
            return
        m(s)

    def x_Expr(self, s):
        self.eval(s.value)

    def x_Pass(self, s):
        pass

    def x_Global(self, s):
        self.env["$global"] = mk("names", *(tuple(s.names) + ()))

    x_Nonlocal = x_Global

    def x_Import(self, s):
        for a in s.names:
            n = a.name if a.asname else a.name.split(".")[0]
            self.env[a.asname or n] = mk("module", n) if n in self.p.modules else mk("glob", n)

    def x_ImportFrom(self, s):
        mod = self.stack[-1][0].module
        base = self.p._frombase(mod, s)
        for a in s.names:
            r = self.p.frommod(base, a.name)
            self.env[a.asname or a.name] = self.global_term(r, mod, a.name) or mk("glob", "%s.%s" % (base, a.name))

    def x_FunctionDef(self, s):
        fi = FuncInfo(s.name, self.stack[-1][0].module, s)
        fi.qual = self.stack[-1][0].qual + "." + s.name
        fi.nested = True
        self.uid += 1
        t = mk("closure", self.uid)
        self.closures[t] = (fi, s, len(self.st.envs) - 1)
        self.env[s.name] = t

    def x_ClassDef(self, s):
        self.env[s.name] = mk("sym", "class:" + s.name)

    def x_Return(self, s):
        v = self.eval(s.value) if s.value is not None else NONE
        if self.st is None:
            return
        self.log("return", s, value=v)
        self._run_finally_for_exit()
        self.stack[-1][4].append((v, self.st, s))
        self.st = None

    def _run_finally_for_exit(self):
        pass

    def x_Raise(self, s):
        names, args, t = (), (), None
        if s.exc is not None:
            e = s.exc
            if isinstance(e, ast.Call):
                args = tuple(self.eval(x.value if isinstance(x, ast.Starred) else x) for x in e.args)
                for k in e.keywords:
                    self.eval(k.value)
                ct = self.eval(e.func)
            else:
                ct = self.eval(e)
            if self.st is None:
                return
            names = self.exc_names(ct)
        else:
            t = self.env.get("$exc")
            names = ("$reraise",)
            for h in reversed(self.handlers):
                names = h[0] or ("$reraise",)
                break
        self.throw(names, s, args)

    def exc_names(self, ct):
        if ct.op == "class":
            c = self.funcs[ct.a[0]]
            out = []
            for k in c.mro:
                if isinstance(k, ClassInfo):
                    out.append(k.name)
                else:
                    out.extend(BUILTIN_EXC.get(k.split(".")[-1], [k]))
            return tuple(out)
        if ct.op == "builtin" and ct.a[0] in BUILTIN_EXC:
            return tuple(BUILTIN_EXC[ct.a[0]])
        if ct.op == "excval":
            return ct.a[0]
        return ("?",)

    def throw(self, names, node, args=()):
        """Explicit raise: route the current state to handlers or to the root."""
        self.log("raise", node, exc=names, args=args)
        st = self.st
        chain = tuple(x[0].short for x in self.stack)
        done = False
        for t in reversed(self.tries):
            m = t.match(names)
            if m == "yes":
                self._snap_to(t, names, node)
                done = True
                break
            if m == "maybe":
                self._snap_to(t, names, node)
        if not done and not self.muted:
            e = Exit("raise", None, State([dict(x) for x in st.envs], dict(st.attrs), dict(st.content), st.guard), node,
                     self.stack[-1][0], chain, names, self.seq)
            e.handlers = tuple(self.handlers)
            e.args = args
            self.root_exits.append(e)
        elif not done:
            pass
        self.st = None

    def _snap_to(self, t, names, node):
        s = self.st.copy()
        s.envs = s.envs[:t.depth]
        t.snaps.append((s, names, node))

    def snap(self, names, node):
        """Implicit exception possible here."""
        if not self.tries or not self.cfg.accidents or getattr(self.stack[-1][0].module, "spec", False):      # a specification does not fail by accident
            return
        for t in reversed(self.tries):
            if names == "builtin" and t.foreign():
                continue
            if t.snaps:
                last = t.snaps[-1][0]
                if (t.snaps[-1][1] is None and last.attrs == self.st.attrs and last.content == self.st.content
                        and last.envs == self.st.envs[:t.depth] and last.guard == self.st.guard):
                    if t.catchall():
                        break
                    continue
            self._snap_to(t, None, node)
            if t.catchall():
                break

    def x_Try(self, s):
        base = self.st.guard
        t = _TryFrame(len(self.st.envs), s, self)
        if s.handlers:
            self.tries.append(t)
        self.exec_block(s.body)
        if s.handlers:
            self.tries.pop()
        if self.st is not None:
            self.exec_block(s.orelse)
        normal = self.st
        outs = [] if normal is None else [normal]
        self.loopid += 1
        tid = self.loopid
        hstates = []
        if s.handlers and t.snaps:
            for hi, h in enumerate(s.handlers):
                hn = t.types[hi]
                snaps = [sn for sn in t.snaps if t.goes(sn[1], hi)]
                if not snaps:
                    continue
                cond = mk("sym", "exc:%d:%d" % (tid, hi))
                cur = None
                raised = [self._cond(sn[0], base) for sn in snaps] if all(sn[1] is not None and sn[0].guard[:len(base)] == base for sn in snaps) else None
                if raised is not None and not any(contains(x, lambda y: y.op in ("pos", "phi", "bv", "loop")) for x in raised):
                    for sn in snaps:     # raised by statements, under known conditions
                        st = sn[0].copy()
                        cur = st if cur is None else self.join2(self._cond(st, base), st, cur, base)
                    cond = truth(disj(*raised))
                else:
                    for k, sn in enumerate(reversed(snaps)):
                        st = sn[0].copy()
                        st.guard = base
                        if cur is None:
                            cur = st
                        else:
                            cur = self.join2(mk("sym", "excat:%d:%d:%d" % (tid, hi, k)), st, cur, base)
                cur.guard = base + (() if cond is TRUE else (cond,))
                self.st = cur
                nm = mk("excval", hn or ("BaseException",), tid)
                if h.name:
                    self.env[h.name] = nm
                explicit = [sn for sn in snaps if sn[1] is not None]
                self.handlers.append((hn, tid, h, all(sn[1] is not None for sn in snaps)))
                self.log("handler", h, types=hn, tryid=tid, snaps=len(snaps))
                self.exec_block(h.body)
                self.handlers.pop()
                if self.st is not None:
                    hstates.append(self.st)
        allst = hstates + outs
        if not allst:
            self.st = None
        else:
            self.st = self.join_many(allst, base)
            if len(allst) > 1:
                self.st.guard = base
        if s.finalbody:
            if self.st is None:
                # every path leaves: still analyse the clean-up for its effects
                snaps = t.snaps
                if snaps:
                    self.st = snaps[-1][0].copy()
                    self.exec_block(s.finalbody)
                    self.st = None
            else:
                self.exec_block(s.finalbody)

    x_TryStar = x_Try

    def x_If(self, s):
        c = self.cond(s.test)
        if self.st is None:
            return
        if c is TRUE:
            return self.exec_block(s.body)
        if c is FALSE:
            return self.exec_block(s.orelse)
        self.branch(c, lambda: self.exec_block(s.body), lambda: self.exec_block(s.orelse))

    def branch(self, c, f, g):
        base = self.st.guard
        other = self.st.copy()
        self.st.guard = base + (c,)
        r1 = f()
        s1 = self.st
        self.st = other
        self.st.guard = base + (negate(c),)
        r2 = g()
        s2 = self.st
        if s1 is None or s2 is None:
            self.st = s1 or s2
        else:
            self.st = self.join2(c, s1, s2, base)
        if isinstance(r1, T) or isinstance(r2, T):
            if s1 is None:
                return r2
            if s2 is None:
                return r1
            return ite(c, r1, r2)

    def x_Assert(self, s):
        c = self.cond(s.test)
        if self.st is None or c is TRUE:
            return
        keep = self.st.copy()
        base = self.st.guard
        self.st.guard = base + (negate(c),)
        self.throw(("AssertionError", "Exception", "BaseException"), s)
        self.st = keep
        self.st.guard = base + (c,)

    def x_Assign(self, s):
        v = self.eval(s.value)
        if self.st is None:
            return
        for t in s.targets:
            self.assign(t, v, s)

    def x_AnnAssign(self, s):
        if s.value is not None:
            v = self.eval(s.value)
            if self.st is not None:
                self.assign(s.target, v, s)

    BIN = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "div", ast.Pow: "pow", ast.Mod: "mod",
           ast.FloorDiv: "floordiv", ast.MatMult: "matmul", ast.BitAnd: "bitand", ast.BitOr: "bitor", ast.BitXor: "bitxor",
           ast.LShift: "lshift", ast.RShift: "rshift"}

    def x_AugAssign(self, s):
        op = self.BIN[type(s.op)]
        if isinstance(s.target, ast.Name):
            old = self.eval(ast.Name(id=s.target.id, ctx=ast.Load(), lineno=s.lineno))
            v = self.eval(s.value)
            if self.st is None:
                return
            new = self.binop(op, old, v, s)
            self.log("aug", s, base=old, op=op, value=v, target=s.target.id)
            if not self.inplace(op, old, v, new):
                self.env[s.target.id] = new
        elif isinstance(s.target, ast.Attribute):
            b = self.eval(s.target.value)
            old = self.getattr(b, s.target.attr, s)
            v = self.eval(s.value)
            if self.st is None:
                return
            new = self.binop(op, old, v, s)
            self.log("aug", s, base=old, op=op, value=v, target=s.target.attr)
            if not self.inplace(op, old, v, new):
                self.setattr(b, s.target.attr, new, s, aug=True)
        elif isinstance(s.target, ast.Subscript):
            b = self.eval(s.target.value)
            k = self.eval_index(s.target.slice)
            old = self.getitem(b, k, s)
            v = self.eval(s.value)
            if self.st is None:
                return
            new = self.binop(op, old, v, s)
            if not self.inplace(op, old, v, new):
                self.setitem(b, k, new, s, aug=True)

    def inplace(self, op, old, v, new):
        """An augmented assignment changes the array or list itself."""
        if old.op != "ref" or self.kind.get(old) not in ("arr", "list"):
            return False
        if self.kind[old] == "list":
            new = self.canon_seq(mk("ext", self.val(old), self.val(v))) if op == "add" else new
        self.st.content[old] = self.val(new)
        return True

    def x_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                b = self.eval(t.value)
                k = self.eval_index(t.slice)
                if self.st is None:
                    return
                self.log("delitem", s, base=b, key=k, val=self.val(b))
                if self.cfg.text and self.val(b).op == "dict":
                    self.getitem(b, k, s)        # a missing key
                    if self.st is None:
                        return
                self.mutate(b, lambda c: self.deleted(c, self.val(k)))
            elif isinstance(t, ast.Attribute):
                b = self.eval(t.value)
                self.log("delattr", s, base=b, attr=t.attr)

    def deleted(self, c, k):
        if c.op == "list" and not any(x.op == "star" for x in c.a):
            l = list(c.a)
            try:
                if k.op == "const" and isinstance(k.a[0], int) and not isinstance(k.a[0], bool):
                    del l[k.a[0]]
                    return mk("list", *l)
                if k.op == "slice" and all(x is NONE or x.op == "const" for x in k.a):
                    del l[slice(*[x.a[0] for x in k.a])]
                    return mk("list", *l)
            except (IndexError, TypeError):
                pass
        if c.op == "dict" and ground(k) and all(isinstance(x, tuple) and ground(x[0]) for x in c.a) and any(x[0] is k for x in c.a):
            return mk("dict", *[x for x in c.a if x[0] is not k])
        if c.op == "ite":
            return ite(c.a[0], self.deleted(c.a[1], k), self.deleted(c.a[2], k))
        return mk("del", c, k)

    def x_With(self, s):
        for i in s.items:
            v = self.eval(i.context_expr)
            if self.st is None:
                return
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v, s)
        self.exec_block(s.body)

    def x_Break(self, s):
        if self.loopframes:
            self.loopframes[-1].breaks.append(self.st)
        self.st = None

    def x_Continue(self, s):
        if self.loopframes:
            self.loopframes[-1].conts.append(self.st)
        self.st = None

    def assign(self, t, v, node):
        if isinstance(t, ast.Name):
            g = self.env.get("$global")
            if g is not None and t.id in g.a:
                if self.stack[-1][2] is not None and self.stack[-1][2] < len(self.st.envs) and t.id in self.st.envs[self.stack[-1][2]]:
                    self.st.envs[self.stack[-1][2]][t.id] = v
                    return
                self.log("setglobal", node, name=t.id, value=v)
                self.st.attrs[(mk("module", self.stack[-1][0].module.name), t.id)] = v
                return
            self.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            items = self.items_of(v)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if items is not None and len(items) == n and not star:
                for e, x in zip(t.elts, items):
                    self.assign(e, x, node)
            else:
                for i, e in enumerate(t.elts):
                    if isinstance(e, ast.Starred):
                        self.assign(e.value, mk("idx", self.val(v), mk("slice", const(i), NONE, NONE)), node)
                    else:
                        self.assign(e, self.getitem(v, const(i), node), node)
        elif isinstance(t, ast.Attribute):
            b = self.eval(t.value)
            if self.st is not None:
                self.setattr(b, t.attr, v, node)
        elif isinstance(t, ast.Subscript):
            hold = None
            if isinstance(t.value, ast.Subscript):
                cb = self.eval(t.value.value)
                ck = self.eval_index(t.value.slice) if self.st is not None else None
                b = self.getitem(cb, ck, t.value) if self.st is not None else NONE
                hold = (cb, ck)
            else:
                b = self.eval(t.value)
            k = self.eval_index(t.slice)
            if self.st is not None:
                self.setitem(b, k, v, node, hold=hold)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, node)

    # ---- heap --------------------------------------------------------------------
    def setattr(self, b, name, v, node, aug=False):
        old = self.peek(b, name)
        self.log("setattr", node, base=b, attr=name, value=v, old=old, aug=aug, val=self.val(v))
        self._setattr(b, name, v)

    def _setattr(self, b, name, v):
        if b.op == "ite":
            c = b.a[0]
            for x, w in ((b.a[1], lambda o: ite(c, v, o)), (b.a[2], lambda o: ite(c, o, v))):
                if x is NONE:
                    continue
                self._setattr(x, name, w(self.peek(x, name)))
            return
        self.st.attrs[(b, name)] = v

    def peek(self, b, name):
        if b.op == "ite":
            return ite(b.a[0], self.peek(b.a[1], name), self.peek(b.a[2], name))
        return self.st.attrs.get((b, name), mk("attr", b, name))

    def setitem(self, b, k, v, node, aug=False, hold=None):
        self.log("setitem", node, base=b, key=k, value=v, val=self.val(v), aug=aug, content=self.val(b), kval=self.val(k))
        if b.op not in ("ref", "sym", "attr", "idx", "ite", "phi", "mcall", "call", "loop", "gvar", "undef"):
            if hold is not None:
                nv = self.upd(b, self.val(k), self.val(v), v)
                self.mutate(hold[0], lambda c: self.upd(c, self.val(hold[1]), nv, nv))
                return
            r = self.fresh("arr", node=node, content=b)
            for e in self.st.envs:
                for n, x in list(e.items()):
                    if x is b:
                        e[n] = r
            for kk, x in list(self.st.attrs.items()):
                if x is b:
                    self.st.attrs[kk] = r
            b = r
        self.mutate(b, lambda c: self.upd(c, self.val(k), self.val(v), v, "list" if self.islist(b) else self.kind.get(b)))

    def islist(self, b):
        c = self.typeof(b)
        return c is not None and c.issub("list")

    def mutate(self, b, fn):
        if b.op == "ite":
            c = b.a[0]
            for x, pol in ((b.a[1], True), (b.a[2], False)):
                if x is NONE or x.op == "undef":
                    continue
                old = self.val(x)
                new = fn(old)
                self.st.content[x] = ite(c, new, old) if pol else ite(c, old, new)
            return
        self.st.content[b] = fn(self.val(b))

    def upd(self, c, k, v, rawv=None, kind=None):
        if self.cfg.arrays and kind == "arr" and k.op == "tuple" and len(k.a) == 2 and arrays.table(c) is not None and self.scalar(v):
            rs = arrays.table(c)
            if all(intval(x) for x in k.a) and -len(rs) <= k.a[0].a[0] < len(rs) and -len(rs[0]) <= k.a[1].a[0] < len(rs[0]):
                rs[k.a[0].a[0]][k.a[1].a[0]] = v
                return mk("call", "numpy.array", (mk("list", *[mk("list", *r) for r in rs]),), ())
        if self.cfg.arrays and kind == "arr" and plain(c) is not None and not (c.op == "list" and any(x.op in ("list", "tuple", "ref") for x in c.a)):
            l = plain(c)
            vs = plain(v) if v.op in ("list", "tuple") or arrays.isarray(v) else None
            if k.op == "const" and isinstance(k.a[0], int) and not isinstance(k.a[0], bool) and -len(l) <= k.a[0] < len(l) and vs is None:
                l[k.a[0]] = v
                return mk("call", "numpy.array", (mk("list", *l),), ())
            if k.op == "slice" and all(x is NONE or x.op == "const" and isinstance(x.a[0], int) for x in k.a):
                at = range(*slice(*[None if x is NONE else x.a[0] for x in k.a]).indices(len(l)))
                if vs is not None and len(vs) in (1, len(at)) or vs is None and self.scalar(v):
                    for j, i in enumerate(at):
                        l[i] = v if vs is None else vs[j if len(vs) > 1 else 0]
                    return mk("call", "numpy.array", (mk("list", *l),), ())
            ks = plain(k) if k.op == "list" or arrays.isarray(k) else None
            if ks is not None and len(ks) == len(l) and vs is None and self.scalar(v) and all(x in (TRUE, FALSE) or x.op in ("lt", "le", "eq", "ne", "and", "or", "not") for x in ks):
                return mk("call", "numpy.array", (mk("list", *[ite(x, v, y) for x, y in zip(ks, l)]),), ())
        m = mask_of(k)
        if m is not None and plain(c) is not None and len(plain(c)) == len(m):
            l = list(plain(c))
            src = plain(v)
            at = [i for i, y in enumerate(m) if y]
            if src is None or len(src) == len(at):
                num = v.op == "const"
                for j, i in enumerate(at):
                    l[i] = src[j] if src is not None else v if num else mk("idx", v, const(j))
                return mk("list", *l)
        if c.op == "list" and k.op == "slice" and all(x is NONE or x.op == "const" and isinstance(x.a[0], int) for x in k.a) and v.op in ("list", "tuple"):
            l = list(c.a)
            sl = slice(*[None if x is NONE else x.a[0] for x in k.a])
            if kind == "list" or len(l[sl]) == len(v.a):
                try:
                    l[sl] = list(v.a)
                    return mk("list", *l)
                except ValueError:
                    pass
        if c.op == "list" and k.op == "const" and isinstance(k.a[0], int) and not isinstance(k.a[0], bool):
            i = k.a[0]
            n = len(c.a)
            if -n <= i < n:
                l = list(c.a)
                l[i] = rawv if rawv is not None else v
                return mk("list", *l)
        if c.op == "dict" and ground(k):
            items = list(c.a)
            for j, (kk, vv) in enumerate(items):
                if kk is k:
                    items[j] = (k, rawv if rawv is not None else v)
                    return mk("dict", *items)
            if all(ground(kk) for kk, _ in items):
                return mk("dict", *(items + [(k, rawv if rawv is not None else v)]))
        if c.op == "ite":
            return ite(c.a[0], self.upd(c.a[1], k, v, rawv, kind), self.upd(c.a[2], k, v, rawv, kind))
        if c.op == "upd" and c.a[1] is k:
            return mk("upd", c.a[0], k, v)
        return mk("upd", c, k, v)

    def canon_seq(self, t):
        """append/extend on known contents."""
        if t.op == "app":
            if t.a[0].op == "list":
                return mk("list", *(t.a[0].a + (t.a[1],)))
            if t.a[0].op == "ite":
                return ite(t.a[0].a[0], self.canon_seq(mk("app", t.a[0].a[1], t.a[1])), self.canon_seq(mk("app", t.a[0].a[2], t.a[1])))
        if t.op == "ext":
            a, b = t.a
            if a.op == "list" and b.op in ("list", "tuple"):
                return mk("list", *(a.a + b.a))
            if "ite" in (a.op, b.op):
                r = self.spread(lambda x, y: mk("list", *(plain(x) + plain(y))) if x.op == "list" and plain(x) is not None and plain(y) is not None else None, a, b)
                if r is not None:
                    return r
            if a.op == "list" and plain(b) is not None and b.op == "call":
                return mk("list", *(a.a + tuple(plain(b))))
            if a.op == "list" and not a.a:
                return b if b.op in ("map", "fmap", "list", "concat") else mk("concat", b)
            if b.op == "ref":
                return t
        return t

    def items_of(self, t):
        """Known elements of a sequence term, else None."""
        v = self.val(t)
        if v.op in ("list", "tuple"):
            if any(x.op == "star" for x in v.a):
                return None
            return list(v.a)
        if v.op == "call" and plain(v) is not None:
            return plain(v)
        if v.op == "const" and isinstance(v.a[0], (str, tuple)):
            return [const(x) for x in v.a[0]]
        if v.op == "call" and v.a[0] == "range" and all(x.op == "const" and isinstance(x.a[0], int) for x in v.a[1]):
            try:
                r = range(*[x.a[0] for x in v.a[1]])
                if len(r) <= self.cfg.unroll:
                    return [const(i) for i in r]
            except Exception:
                return None
        if v.op == "call" and v.a[0] in ("zip", "enumerate", "reversed", "list", "tuple", "dict.items", "dict.keys", "dict.values"):
            subs = [self.items_of(x) for x in v.a[1]]
            if v.a[0] == "zip" and all(s is not None for s in subs) and subs:
                return [mk("tuple", *xs) for xs in zip(*subs)]
            if v.a[0] == "enumerate" and subs[0] is not None and len(subs) == 1 and not v.a[2]:
                return [mk("tuple", const(i), x) for i, x in enumerate(subs[0])]
            if v.a[0] == "reversed" and subs[0] is not None:
                return list(reversed(subs[0]))
            if v.a[0] in ("list", "tuple") and len(subs) == 1:
                return subs[0]
        if v.op == "dict" and all(ground(k) or self.cfg.arrays and (k.op == "ref" or k in self.objects) for k, _ in v.a):
            return [k for k, _ in v.a]
        if v.op == "ite":
            c = self.known(v.a[0])
            if c is TRUE or c is FALSE:
                return self.items_of(v.a[1] if c is TRUE else v.a[2])
            if self.splits(v):
                a, b = self.items_of(v.a[1]), self.items_of(v.a[2])
                if a is not None and b is not None and len(a) == len(b):
                    return [ite(c, x, y) for x, y in zip(a, b)]
        return self.sequence(t)

    def splits(self, v):
        """A gate between sequences of known elements."""
        if v.op == "ite":
            return self.fanout(v, 24) and self.splits(v.a[1]) and self.splits(v.a[2])
        return plain(v) is not None

    def sequence(self, t):
        """Elements of an object with a known length and __getitem__, else None."""
        c = self.typeof(t)
        if c is None or self.muted:
            return None
        ln, gt = c.find("__len__"), c.find("__getitem__")
        if ln is None or gt is None or c.find("__iter__") is not None or self.cfg.opaque(ln, t, self) or self.cfg.opaque(gt, t, self):
            return None
        n = self.val(self.call_func(ln, [], {}, None, t, quiet=True))
        if n.op != "const" or not isinstance(n.a[0], int) or n.a[0] > self.cfg.unroll:
            return None
        return [self.call_func(gt, [const(k)], {}, None, t, quiet=True) for k in range(n.a[0])]

    # ---- loops ----------------------------------------------------------------------
    def iteration(self, it, L):
        """(element term, space term) of one abstract iteration over `it`."""
        v = self.val(it)
        pos = mk("pos", L)
        if v.op == "call" and v.a[0] == "range" and not v.a[2]:
            a = v.a[1]
            if len(a) == 1:
                return pos, a[0]
            if len(a) == 2:
                if a[0].op == "const" and a[0].a[0] == 0:
                    return pos, a[1]
                return mk("add", a[0], pos), mk("sub", a[1], a[0])
            return mk("idx", v, pos), mk("call", "len", (v,), ())
        if v.op == "call" and v.a[0] == "enumerate" and not v.a[2]:
            e, sp = self.iteration(v.a[1][0], L)
            p = pos if len(v.a[1]) == 1 else mk("add", v.a[1][1], pos)
            return mk("tuple", p, e), sp
        if v.op == "call" and v.a[0] == "zip":
            es = [self.iteration(x, L) for x in v.a[1]]
            sps = []
            for _, sp in es:
                if sp not in sps:
                    sps.append(sp)
            return mk("tuple", *[e for e, _ in es]), (sps[0] if len(sps) == 1 else mk("call", "min", tuple(sps), ()))
        if v.op == "call" and v.a[0] == "dict.items":
            d = v.a[1][0]
            k = mk("idx", mk("call", "dict.keys", (d,), ()), pos)
            return mk("tuple", k, mk("idx", d, k)), mk("call", "len", (d,), ())
        if v.op in ("map",) :
            return self.getitem(v, pos, None), v.a[0]
        src = it if it.op in ("sym", "attr") and v is it else v
        return self.getitem(src, pos, None), self.length(src)

    def length(self, t):
        return self._length(self.val(t))

    def _length(self, v):
        if v.op in ("list", "tuple", "dict") and not any(isinstance(x, T) and x.op == "star" for x in v.a):
            return const(len(v.a))
        if v.op == "const" and isinstance(v.a[0], str):
            return const(len(v.a[0]))
        if v.op == "map":
            return v.a[0]
        if plain(v) is not None:
            return const(len(plain(v)))
        if v.op == "call" and v.a[0] in ("set", "frozenset") and len(v.a[1]) == 1 and ints(v) is not None:
            return const(len(set(ints(v))))
        if v.op == "upd":
            return self._length(v.a[0])
        if v.op == "ite":
            return ite(v.a[0], self._length(v.a[1]), self._length(v.a[2]))
        return mk("call", "len", (v,), ())

    def x_For(self, s):
        it = self.eval(s.iter)
        if self.st is None:
            return
        if self.cfg.loops and not s.orelse:
            r = self.stepwise(s, it)
            if r is not None:
                return r
        self.log("iter", s, iterable=it, val=self.val(it))
        self.for_loop(it, lambda e: self.assign(s.target, e, s), lambda: self.exec_block(s.body),
                      (lambda: self.exec_block(s.orelse)) if s.orelse else None, s)

    x_AsyncFor = x_For

    def stepwise(self, s, it):
        """A loop over an object that defines its own iteration, as the while loop it means."""
        c = self.typeof(it)
        f = c.find("__iter__") if c is not None else None
        if f is None:
            return None
        me = self.call_func(f, [], {}, s, it)
        if self.st is None:
            return True
        d = self.typeof(me)
        if d is None or d.find("__next__") is None:
            return None
        name = "__iter%d" % id(s)
        self.env[name] = me
        loop = self.steploops.get(s)
        if loop is None:
            loop = ast.parse("while True:\n try:\n  __x = %s.__next__()\n except StopIteration:\n  break" % name).body[0]
            loop.body[0].body[0].targets = [s.target]
            for n in ast.walk(loop):
                if n is not s.target:
                    ast.copy_location(n, s)
            loop.body = loop.body + s.body
            self.steploops[s] = loop
        self.x_While(loop)
        if self.st is not None:
            self.env.pop(name, None)
        return True

    def for_loop(self, it, bindf, bodyf, elsef, node):
        items = self.items_of(it)
        if items is not None and len(items) <= self.cfg.unroll:
            base = self.st.guard
            frame = _Loop()
            self.loopframes.append(frame)
            for x in items:
                if self.st is None:
                    break
                bindf(x)
                g = self.st.guard
                bodyf()
                if frame.conts:
                    self.st = self.join_many(frame.conts + ([self.st] if self.st else []), g)
                    if self.st is not None and len(frame.conts) >= 1:
                        self.st.guard = g if len(frame.conts) > 1 or self.st.guard == g else self.st.guard
                    frame.conts = []
            self.loopframes.pop()
            if self.st is not None and elsef:
                elsef()
            alts = frame.breaks + ([self.st] if self.st is not None else [])
            if len(alts) > 1:
                self.st = self.join_many(alts, base)
                self.st.guard = base
            else:
                self.st = alts[0] if alts else None
            return
        if items is None:
            v = self.val(it)
            if v.op == "ite" and self.splits(v):
                self.branch(v.a[0], lambda: self.for_loop(v.a[1], bindf, bodyf, elsef, node), lambda: self.for_loop(v.a[2], bindf, bodyf, elsef, node))
                return
            if v.op == "call" and v.a[0] in ("enumerate", "zip", "reversed", "list", "tuple") and not v.a[2]:
                for k, x in enumerate(v.a[1]):          # over a gate between known sequences: in each case
                    w = self.val(x)
                    if w.op == "ite" and self.splits(w):
                        def over(y, k=k):
                            return lambda: self.for_loop(mk("call", v.a[0], v.a[1][:k] + (y,) + v.a[1][k + 1:], ()), bindf, bodyf, elsef, node)
                        self.branch(w.a[0], over(w.a[1]), over(w.a[2]))
                        return
        self.loopid += 1
        L = self.loopid
        elem, space = self.iteration(it, L)
        self.spaces[L] = space
        self.generic_loop(L, space, lambda: bindf(elem), bodyf, elsef, node, None)

    def x_While(self, s):
        if not self.cfg.loops:
            return self.while_loop(s)
        base = self.st.guard
        frame = _Loop()
        self.loopframes.append(frame)

        def once(n):
            if self.st is None:
                return
            if n == 0:
                c = self.cond(s.test)
                if self.st is not None and c is not FALSE:
                    self.loopframes.pop()
                    self.while_loop(s)
                    self.loopframes.append(frame)
                elif self.st is not None:
                    self.exec_block(s.orelse)
                return
            c = self.cond(s.test)
            if self.st is None:
                return
            if c is FALSE:
                return self.exec_block(s.orelse)

            def body():
                g = self.st.guard
                outer, frame.conts = frame.conts, []
                self.exec_block(s.body)
                if frame.conts:
                    self.st = self.join_many(frame.conts + ([self.st] if self.st is not None else []), g)
                frame.conts = outer
                once(n - 1)
            if c is TRUE:
                return body()
            self.branch(c, body, lambda: self.exec_block(s.orelse))

        once(self.cfg.loops)
        self.loopframes.pop()
        alts = frame.breaks + ([self.st] if self.st is not None else [])
        self.st = self.join_many(alts, base)
        if len(alts) > 1:
            self.st.guard = base

    def while_loop(self, s):
        self.loopid += 1
        L = self.loopid
        space = mk("while", L)
        self.spaces[L] = space
        c0 = None

        def bind():
            pass

        self.generic_loop(L, space, bind, lambda: self.exec_block(s.body),
                          (lambda: self.exec_block(s.orelse)) if s.orelse else None, s, s.test)

    def generic_loop(self, L, space, bindf, bodyf, elsef, node, test):
        base = self.st.guard
        entry = self.st
        self.loops.append((L, space, node))
        # pass 1: which locations does one iteration change?
        self.muted += 1
        nt = [(t, len(t.snaps)) for t in self.tries]
        outer_exits = len(self.stack[-1][4])
        changed = set()
        probe = entry.copy()
        for _ in range(2):
            self.st = self.havoc(probe.copy(), changed, L, node)
            uid0, loop0 = self.uid, self.loopid
            frame = _Loop()
            self.loopframes.append(frame)
            start = self.st.copy()
            if test is not None:
                c = self.cond(test)
                if self.st is not None and c is not TRUE:
                    self.st.guard = self.st.guard + (c,)
            if self.st is not None:
                bindf()
            if self.st is not None:
                bodyf()
            self.loopframes.pop()
            ends = frame.breaks + frame.conts + ([self.st] if self.st is not None else [])
            new = set()
            for e in ends:
                new |= self.diff(start, e)
            if new <= changed:
                break
            changed |= new
        for t, k in nt:
            del t.snaps[k:]
        del self.stack[-1][4][outer_exits:]
        self.muted -= 1
        # pass 2
        st = self.havoc(entry.copy(), changed, L, node)
        self.st = st
        frame = _Loop()
        self.loopframes.append(frame)
        inloop = mk("sym", "inloop:%d" % L)
        exitcond = None
        if test is not None:
            c = self.cond(test)
            if self.st is not None and c is not TRUE:
                self.st.guard = self.st.guard + (c,)
                exitcond = negate(c)
        if self.st is not None:
            bindf()
        if self.st is not None:
            self.log("loopbody", node, L=L, space=space)
            bodyf()
        self.loopframes.pop()
        self.loops.pop()
        ends = frame.conts + ([self.st] if self.st is not None else [])
        bodyend = self.join_many(ends, base) if ends else None
        # normal exit
        out = entry.copy()
        out.guard = base
        for key in changed:
            init = self.getkey(entry, key)
            phi = self.phi(L, key, init)
            b = self.getkey(bodyend, key) if bodyend is not None else phi
            self.setkey(out, key, self.exit_value(L, space, key, init, phi, b))
        # values written only inside (fresh refs, elements)
        if bodyend is not None:
            for k, v in bodyend.content.items():
                if k not in out.content and k not in entry.content:
                    out.content[k] = v
            for k, v in bodyend.attrs.items():
                if k not in out.attrs:
                    out.attrs[k] = v
            if self.cfg.arrays:
                self.blur(entry, bodyend, out, L)
            for n, v in bodyend.envs[-1].items():
                if n not in out.envs[-1]:
                    out.envs[-1][n] = v if v.op == "undef" else mk("last", L, v)
                    if v.op == "ref":
                        out.envs[-1][n] = v
        if exitcond is not None and not frame.breaks:
            pass
        self.st = out
        if elsef:
            elsef()
        if frame.breaks:
            brk = self.join_many(frame.breaks, base)
            if brk is not None:
                for key in changed:
                    pass
                c = mk("sym", "break:%d" % L)
                brk.guard = base + (c,)
                if self.st is None:
                    self.st = brk
                    self.st.guard = base
                else:
                    self.st = self.join2(c, brk, self.st, base)

    def blur(self, entry, end, out, L):
        """What one iteration writes through an element of known objects may be any of them: they are unknown afterwards."""
        writes = [k for k in end.content if k not in entry.content] + [k[0] for k in end.attrs if k not in entry.attrs]
        todo = [k for k in writes if k.op not in ("ref", "sym")]
        hit = set()
        seen = set()
        while todo:
            t = todo.pop()
            if t in seen:
                continue
            seen.add(t)
            if t in self.objects or t in out.content or t.op == "ref":
                hit.add(t)
                todo += [v for (b, _), v in out.attrs.items() if b is t]
                if t in out.content:
                    todo.append(out.content[t])
            todo += [x for x in _children(t) if x not in seen]
        for k in hit:
            if k in out.content:
                out.content[k] = mk("havoc", L, k)

    def phi(self, L, key, init):
        return mk("phi", L, keyname(key), init if init is not None else mk("undef", keyname(key)))

    def exit_value(self, L, space, key, init, phi, b):
        if b is phi:
            return init
        if init is None:
            init = mk("undef", keyname(key))
        pos = mk("pos", L)

        def close(x):
            return bindpos(x, L)

        def fresh_of(x):
            return not contains(x, phi)
        if space.op != "while":
            if b.op == "app" and b.a[0] is phi and fresh_of(b.a[1]):
                return self.concat(init, mk("map", space, close(self.deep_alloc(b.a[1]))))
            if b.op == "ext" and b.a[0] is phi and fresh_of(b.a[1]):
                return self.concat(init, mk("flat", mk("map", space, close(self.deep_alloc(b.a[1])))))
            if b.op == "ite":
                c, x, y = b.a
                if y is phi and x.op == "app" and x.a[0] is phi and fresh_of(x.a[1]) and fresh_of(c):
                    return self.concat(init, mk("fmap", space, close(c), close(self.deep_alloc(x.a[1]))))
                if x is phi and y.op == "app" and y.a[0] is phi and fresh_of(y.a[1]) and fresh_of(c):
                    return self.concat(init, mk("fmap", space, close(negate(c)), close(self.deep_alloc(y.a[1]))))
            b = self.merge_app(b, phi)
            if b.op == "app" and b.a[0] is phi and fresh_of(b.a[1]):
                return self.concat(init, mk("map", space, close(self.deep_alloc(b.a[1]))))
            if b.op == "add" and b.a[0] is phi and fresh_of(b.a[1]):
                return add_sum(init, mk("sum", mk("map", space, close(b.a[1]))))
            if b.op == "add" and b.a[1] is phi and fresh_of(b.a[0]):
                return add_sum(init, mk("sum", mk("map", space, close(b.a[0]))))
            if b.op == "upd" and b.a[0] is phi and fresh_of(b.a[1]) and fresh_of(b.a[2]):
                if b.a[1] is pos:
                    return mk("map", space, close(b.a[2])) if self.length(init) is space else mk("updall", init, mk("map", space, mk("tuple", close(b.a[1]), close(b.a[2]))))
                return mk("updall", init, mk("map", space, mk("tuple", close(b.a[1]), close(b.a[2]))))
            if b.op == "ite" and contains(b, phi):
                c, x, y = b.a
                for cc, z, o in ((c, x, y), (negate(c), y, x)):
                    if o is phi and z.op == "upd" and z.a[0] is phi and fresh_of(cc) and fresh_of(z.a[1]) and fresh_of(z.a[2]):
                        if z.a[1] is pos and self.length(init) is space:
                            return mk("map", space, close(ite(cc, z.a[2], mk("idx", init, pos))))
            if fresh_of(b) and not contains(b, pos):
                pass
        return mk("loop", L, space, b, init)

    def merge_app(self, b, phi):
        """ite(c, phi+[x], phi+[y]) is phi+[ite(c, x, y)] (nested)."""
        if b.op != "ite":
            return b
        x, y = self.merge_app(b.a[1], phi), self.merge_app(b.a[2], phi)
        if x.op == "app" and y.op == "app" and x.a[0] is phi and y.a[0] is phi:
            return mk("app", phi, ite(b.a[0], x.a[1], y.a[1]))
        return b

    def deep_alloc(self, t):
        """References allocated inside the loop body are replaced by their content."""
        def f(x):
            if x.op == "ref" and self.kind.get(x) in ("list", "dict", "arr") and x in self.st_last.content:
                return self.st_last.content[x]
        st = self.st if self.st is not None else None
        if st is None:
            return t
        self.st_last = st
        return rewrite(t, f)

    def concat(self, init, m):
        if init.op == "list" and not init.a:
            return m
        if init.op == "concat":
            return mk("concat", *(init.a + (m,)))
        return mk("concat", init, m)

    def havoc(self, st, keys, L, node):
        for k in keys:
            init = self.getkey(st, k)
            self.setkey(st, k, self.phi(L, k, init))
        return st

    @staticmethod
    def getkey(st, key):
        if key[0] == "env":
            return st.envs[key[1]].get(key[2]) if key[1] < len(st.envs) else None
        if key[0] == "attr":
            return st.attrs.get(key[1:], mk("attr", key[1], key[2]))
        return st.content.get(key[1], key[1])

    @staticmethod
    def setkey(st, key, v):
        if key[0] == "env":
            st.envs[key[1]][key[2]] = v
        elif key[0] == "attr":
            st.attrs[key[1:]] = v
        else:
            st.content[key[1]] = v

    def diff(self, a, b):
        out = set()
        for i in range(min(len(a.envs), len(b.envs))):
            for n, v in b.envs[i].items():
                if n in a.envs[i] and a.envs[i][n] is not v:
                    out.add(("env", i, n))
        for k, v in b.attrs.items():
            if k in a.attrs:
                if a.attrs[k] is not v:
                    out.add(("attr",) + k)
            elif k[0] not in self.alloc and not any(x.op == "pos" for x in subterms(k[0])):
                if v is not mk("attr", *k):
                    out.add(("attr",) + k)
        for k, v in b.content.items():
            if k in a.content:
                if a.content[k] is not v:
                    out.add(("content", k))
            elif k not in self.alloc and not any(x.op == "pos" for x in subterms(k)):
                out.add(("content", k))
        return out

    # ---- expressions ---------------------------------------------------------------------
    def cond(self, e):
        """Condition term of an expression, simplified under the guard."""
        if isinstance(e, ast.BoolOp):
            return self.boolop_cond(e)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            c = self.cond(e.operand)
            return self.known(negate(c)) if self.st is not None else c
        t = self.eval(e)
        if self.st is None:
            return FALSE
        return self.known(truth(self.condval(t)))

    def condval(self, t):
        v = self.val(t)
        if v is t and t.op in ("ref",) and self.kind.get(t) == "obj":
            c = self.classof.get(t)
            if c is not None and not c.find("__len__") and not c.find("__bool__"):
                return TRUE
        return v

    def boolop_cond(self, e):
        isand = isinstance(e.op, ast.And)
        base = self.st.guard
        acc = []
        for i, x in enumerate(e.values):
            c = self.cond(x)
            if self.st is None:
                self.st = None
                return FALSE
            if (c is FALSE and isand) or (c is TRUE and not isand):
                acc.append(c)
                break
            acc.append(c)
            if i + 1 < len(e.values) and c is not TRUE and c is not FALSE:
                self.st.guard = self.st.guard + ((c if isand else negate(c)),)
        self.st.guard = base
        return conj(*acc) if isand else disj(*acc)

    def eval(self, e):
        if self.st is None:
            return NONE
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            self.notes.append("expression %s not modelled" % type(e).__name__)
            return mk("sym", "expr:" + ast.unparse(e))
        return m(e)

    def e_Constant(self, e):
        return e.value if isinstance(e.value, T) else const(e.value)

    def e_Name(self, e):
        n = e.id
        if n in self.env:
            return self.env[n]
        lex = self.stack[-1][2]
        seen = 0
        while lex is not None and seen < 10:
            if lex < len(self.st.envs) and n in self.st.envs[lex]:
                return self.st.envs[lex][n]
            up = None
            for s in self.stack:
                if s[3] == lex:
                    up = s[2]
            lex, seen = up, seen + 1
        mod = self.stack[-1][0].module
        k = (mk("module", mod.name), n)
        if k in self.st.attrs:
            return self.st.attrs[k]
        r = self.p.lookup(mod, n)
        if r is not None:
            t = self.global_term(r, mod, n)
            if t is not None:
                return t
        if n == "__name__":
            return const(mod.name)
        if n in BUILTINS:
            return mk("builtin", n)
        if self.cfg.text:
            return self.failed("NameError", e)
        return mk("undefined", n)

    def e_Attribute(self, e):
        b = self.eval(e.value)
        if self.st is None:
            return NONE
        return self.getattr(b, e.attr, e)

    def getattr(self, b, name, node):
        if b.op == "ite":
            if b.a[1] is NONE or b.a[1].op == "undef":
                return self.getattr(b.a[2], name, node)
            if b.a[2] is NONE or b.a[2].op == "undef":
                return self.getattr(b.a[1], name, node)
            if not self.fanout(b):
                return mk("attr", b, name)
            return self.branch(b.a[0], lambda: self.getattr(b.a[1], name, node), lambda: self.getattr(b.a[2], name, node))
        if (b, name) in self.st.attrs:
            return self.st.attrs[(b, name)]
        if b.op == "module":
            m = self.p.modules[b.a[0]]
            r = self.p.frommod(m.name, name)
            if self.cfg.text and r == m.name + "." + name and not self.mentions(m, name):
                return self.failed("AttributeError", node)
            t = self.global_term(r, m, name)
            return t if t is not None else mk("glob", m.name + "." + name)
        if b.op == "glob":
            return mk("glob", b.a[0] + "." + name)
        if b is NONE and self.cfg.text and not name.startswith("__"):
            return self.failed("AttributeError", node)
        if b.op == "slice" and name in ("start", "stop", "step"):
            return b.a[("start", "stop", "step").index(name)]
        if b.op == "builtin":
            return mk("glob", b.a[0] + "." + name)
        if b.op == "class":
            c = self.funcs[b.a[0]]
            f = c.find(name)
            if f is not None:
                self.funcs[f.qual] = f
                return mk("func", f.qual)
            a = c.find_attr(name)
            if a is not None:
                return self.const_expr(a[0], a[1].module)
            if name in ("__name__", "__module__"):
                return const(c.name if name == "__name__" else c.module.name)
            return mk("attr", b, name)
        if name == "__class__":
            c = self.typeof(b)
            if c is not None and b.op == "ref":
                self.funcs[c.qual] = c
                return mk("class", c.qual)
            return mk("call", "type", (b,), ())
        c = self.typeof(b)
        if c is not None:
            f = c.find(name)
            if f is not None:
                if f.property:
                    return self.call_func(f, [], {}, node, b)
                if (b, name) not in self.st.attrs:
                    self.funcs[f.qual] = f
                    return mk("bound", b, f.qual)
            a = c.find_attr(name)
            if a is not None:
                return self.const_expr(a[0], a[1].module)
        v = self.val(b)
        if self.cfg.arrays and c is None:
            r = self.array_attr(b, name)
            if r is not None:
                return r
        if name in ("shape", "ndim"):
            d = matrix.dims(self.deep(v))
            if d is not None:
                return mk("tuple", const(d[0]), const(d[1])) if name == "shape" else const(2)
            if plain(v) is not None and name == "shape" and v.op == "call":
                return mk("tuple", const(len(plain(v))))
        if v is not b and v.op not in ("ref",) and name in ("T", "shape", "size", "real", "imag", "dtype", "ndim"):
            return mk("attr", v, name)
        return mk("attr", b, name)

    def e_Subscript(self, e):
        b = self.eval(e.value)
        k = self.eval_index(e.slice)
        if self.st is None:
            return NONE
        return self.getitem(b, k, e)

    def eval_index(self, s):
        if isinstance(s, ast.Slice):
            return mk("slice", *[self.vv(x) if x is not None else NONE for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            return mk("tuple", *[self.eval_index(x) for x in s.elts])
        return self.vv(s)

    def vv(self, e):
        t = self.eval(e)
        return self.val(t) if self.st is not None else t

    def getitem(self, b, k, node):
        if node is not None and isinstance(node, ast.AST):
            c = self.typeof(b)
            if c is not None:
                f = c.find("__getitem__")
                if f is not None and not self.cfg.opaque(f, b, self):
                    return self.call_func(f, [k], {}, node, b)
        v = self.val(b)
        if self.cfg.arrays:
            r = self.array_index(b, v, self.val(k), node)
            if r is not None:
                return r
        if b.op == "glob" and b.a[0] == "sys.modules" and text.known(k) and k.a[0] in self.p.modules:
            return mk("module", k.a[0])
        if self.cfg.text and isinstance(node, ast.AST) and ground(k):
            if v.op == "dict" and all(isinstance(x, tuple) and ground(x[0]) for x in v.a) and all(x[0] is not k for x in v.a):
                return self.failed("KeyError", node)
            if v.op in ("list", "tuple") and k.op == "const" and isinstance(k.a[0], int) and not -len(v.a) <= k.a[0] < len(v.a) and not any(isinstance(x, T) and x.op == "star" for x in v.a):
                return self.failed("IndexError", node)
            if v is NONE:
                return self.failed("TypeError", node)
        if v is NONE and self.cfg.arrays and isinstance(node, ast.AST):
            return self.failed("TypeError", node)
        return self._get(v, k, b, {})

    def _get(self, v, k, b, memo):
        m = (v, k)
        r = memo.get(m)
        if r is None:
            r = memo[m] = self._get1(v, k, b, memo)
        return r

    def _get1(self, v, k, b, memo):
        if v.op == "ite":
            if v.a[1] is NONE or v.a[1].op == "undef":
                return self._get(v.a[2], k, v.a[2], memo)
            if v.a[2] is NONE or v.a[2].op == "undef":
                return self._get(v.a[1], k, v.a[1], memo)
            return ite(v.a[0], self._get(v.a[1], k, v.a[1], memo), self._get(v.a[2], k, v.a[2], memo))
        if k.op == "ite":
            return ite(k.a[0], self._get(v, k.a[1], b, memo), self._get(v, k.a[2], b, memo))
        if v.op in ("list", "tuple") and k.op == "const" and isinstance(k.a[0], int):
            if -len(v.a) <= k.a[0] < len(v.a):
                return v.a[k.a[0]]
        m = mask_of(k)
        if m is not None and plain(v) is not None and len(plain(v)) == len(m):
            return mk("list", *[x for x, y in zip(plain(v), m) if y])
        if plain(v) is not None and v.op == "call" and k.op in ("const", "slice"):
            r = self._get1(mk("list", *plain(v)), k, b, {})
            if r.op != "idx":
                return r
        if v.op in ("list", "tuple") and k.op == "slice" and all(x is NONE or (x.op == "const" and isinstance(x.a[0], int)) for x in k.a):
            sl = slice(*[None if x is NONE else x.a[0] for x in k.a])
            return mk(v.op, *v.a[sl])
        if v.op == "const" and isinstance(v.a[0], str) and k.op == "slice" and all(x is NONE or x.op == "const" and isinstance(x.a[0], int) for x in k.a):
            return const(v.a[0][slice(*[x.a[0] for x in k.a])])
        if v.op == "const" and isinstance(v.a[0], str) and k.op == "const":
            try:
                return const(v.a[0][k.a[0]])
            except Exception:
                pass
        if v.op == "dict":
            for kk, x in v.a:
                if kk is k:
                    return x
        if v.op == "upd":
            if v.a[1] is k:
                return v.a[2]
            if (v.a[1].op == "const" and k.op == "const"):
                return self._get(v.a[0], k, v.a[0], memo)
        if v.op == "map" and k.op in ("pos",):
            return unbind(v, k)
        if v.op in ("sym", "attr") and v is b:
            return mk("idx", b, k)
        if v.op not in ("sym", "list", "tuple", "dict", "map") or k.op == "tuple":
            r = matrix.select(self.deep(v), k)
            if r is not None:
                return r
        return mk("idx", v, k)

    def e_Slice(self, e):
        return self.eval_index(e)

    def e_Tuple(self, e):
        return mk("tuple", *self.elts(e.elts))

    def elts(self, es):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                t = self.eval(x.value)
                items = self.items_of(t) if self.st is not None else None
                if items is None:
                    out.append(mk("star", t))
                else:
                    out.extend(items)
            else:
                out.append(self.eval(x))
            if self.st is None:
                return []
        return out

    def e_List(self, e):
        xs = self.elts(e.elts)
        if self.st is None:
            return NONE
        return self.fresh("list", node=e, content=mk("list", *xs))

    def e_Set(self, e):
        xs = self.elts(e.elts)
        if self.st is None:
            return NONE
        c = mk("list", *xs)
        return self.fresh("set", node=e, content=self.spread(setof, c) or mk("call", "set", (c,), ()))

    def e_Dict(self, e):
        items = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                t = self.eval(v)
                tv = self.val(t) if self.st is not None else t
                if tv.op == "dict":
                    items.extend(tv.a)
                else:
                    items.append((mk("star", t), t))
            else:
                kt = self.vv(k)
                items.append((kt, self.eval(v)))
            if self.st is None:
                return NONE
        return self.fresh("dict", node=e, content=mk("dict", *items))

    def e_BinOp(self, e):
        a = self.eval(e.left)
        b = self.eval(e.right)
        if self.st is None:
            return NONE
        return self.binop(self.BIN[type(e.op)], a, b, e)

    DUNDER = {"add": "__add__", "sub": "__sub__", "mul": "__mul__", "div": "__truediv__"}

    def binop(self, op, a, b, node):
        if self.cfg.arrays:
            r = self.array_binop(op, a, b, node)
            if r is not None:
                return r
        x, y = self.val(a), self.val(b)
        if x.op == "const" and y.op == "const":
            try:
                p, q = x.a[0], y.a[0]
                if isinstance(p, (int, float)) and isinstance(q, (int, float)) and not isinstance(p, bool) and not isinstance(q, bool):
                    if op == "add":
                        return const(p + q)
                    if op == "sub":
                        return const(p - q)
                    if op == "mul":
                        return const(p * q)
                    if op in ("floordiv", "mod") and q != 0 and isinstance(p, int) and isinstance(q, int):
                        return const(p // q if op == "floordiv" else p % q)
                    if op in ("bitand", "bitor", "bitxor") and isinstance(p, int) and isinstance(q, int):
                        return const(p & q if op == "bitand" else p | q if op == "bitor" else p ^ q)
                    if op == "div" and q != 0 and isinstance(p, int) and isinstance(q, int) and p % q == 0:
                        return const(p / q)
                if isinstance(p, str) and isinstance(q, str) and op == "add":
                    return const(p + q)
                if isinstance(p, str) and op == "mod":
                    return (self.formatted(p, b) if self.cfg.text else None) or mk("mod", x, y)
            except Exception:
                pass
        if self.cfg.neutral and self.cfg.arrays and op in ("add", "sub", "mul") and self.scalar(x) and self.scalar(y):
            zx, zy = (z.op == "const" and not isinstance(z.a[0], (str, bool)) and z.a[0] == 0 for z in (x, y))
            if op == "mul" and (zx or zy):      # numbers are finite
                return const(0.0)
            if op in ("add", "sub"):
                return total(x, y, 1 if op == "add" else -1)
        if op in ("bitor", "bitand", "sub") and "set" in (self.kind.get(a), self.kind.get(b)):
            def both(u, w):
                if not (u.op == w.op == "call" and u.a[0] == w.a[0] == "set") or ints(u) is None or ints(w) is None:
                    return None
                p, q = set(ints(u)), set(ints(w))
                return setof(mk("list", *[const(z) for z in (p | q if op == "bitor" else p & q if op == "bitand" else p - q)]))
            r = self.spread(both, x, y)
            if r is not None:
                return self.fresh("set", node=node, content=r)
        if op == "add" and x.op == "list" and y.op == "list":
            return self.fresh("list", node=node, content=mk("list", *(x.a + y.a)))
        if op == "add" and "ite" in (x.op, y.op) and {x.op, y.op} <= {"ite", "list"}:
            r = self.spread(lambda u, w: mk("list", *(u.a + w.a)) if u.op == w.op == "list" else None, x, y)
            if r is not None:
                return self.fresh("list", node=node, content=r)
        if op == "add" and x.op == "tuple" and y.op == "tuple":
            return mk("tuple", *(x.a + y.a))
        if op == "mul" and x.op == "list" and y.op == "const" and isinstance(y.a[0], int) and y.a[0] * len(x.a) < 64:
            return self.fresh("list", node=node, content=mk("list", *(x.a * y.a[0])))
        if self.cfg.text and op == "add" and text.known(x) != text.known(y):
            w = self.written(b if text.known(x) else a, "s")
            if w is not None:
                return const(x.a[0] + w if text.known(x) else w + y.a[0])
        if op == "mod" and x.op == "const" and isinstance(x.a[0], str):
            return (self.formatted(x.a[0], b) if self.cfg.text else None) or mk("mod", x, self.deep(y))
        if op in ("add", "sub", "mul"):      # arithmetic on known arrays of numbers
            for u, w, flip in ((x, y, False), (y, x, True)):
                l = plain(u) if u.op == "call" else None
                if l is not None and all(intval(z) for z in l) and intval(w):
                    vals = [(w.a[0], z.a[0]) if flip else (z.a[0], w.a[0]) for z in l]
                    out = [const(p + q if op == "add" else p - q if op == "sub" else p * q) for p, q in vals]
                    return self.fresh("arr", node=node, content=mk("call", "numpy.array", (mk("list", *out),), ()))
        return mk(op, x, y)

    def e_UnaryOp(self, e):
        if isinstance(e.op, ast.Not):
            c = self.cond(e.operand)
            return negate(c)
        t = self.eval(e.operand)
        if self.st is None:
            return NONE
        if self.cfg.arrays and not isinstance(e.op, ast.UAdd) and self.vec(t) is not None:
            return self.array([mk("neg", x) if isinstance(e.op, ast.USub) else negate(truth(x)) for x in self.vec(t)], e)
        t = self.val(t)
        if isinstance(e.op, ast.USub):
            if t.op == "const" and isinstance(t.a[0], (int, float)) and not isinstance(t.a[0], bool):
                return const(-t.a[0])
            return mk("neg", t)
        if isinstance(e.op, ast.UAdd):
            return t
        return mk("invert", t)

    CMP = {ast.Eq: "eq", ast.NotEq: "ne", ast.Lt: "lt", ast.LtE: "le", ast.Gt: "gt", ast.GtE: "ge", ast.Is: "is",
           ast.IsNot: "isnot", ast.In: "in", ast.NotIn: "notin"}

    def e_Compare(self, e):
        left = self.eval(e.left)
        parts = []
        base = self.st.guard if self.st is not None else ()
        for k, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.eval(r)
            if self.st is None:
                return NONE
            self.here = e
            parts.append(self.compare(self.CMP[type(op)], left, right))
            if self.st is None:
                return NONE
            left = right
            if k + 1 < len(e.ops) and self.cfg.arrays:      # what follows is compared only where this held
                c = parts[-1] = self.known(truth(parts[-1]))
                if c is FALSE:
                    break
                if c is not TRUE:
                    self.st.guard = self.st.guard + (c,)
            elif len(e.ops) > 1 and self.cfg.arrays:
                parts[-1] = self.known(truth(parts[-1]))
        self.st.guard = base
        return conj(*parts)

    def compare(self, op, a, b):
        if op in ("is", "isnot"):
            r = None
            if b is NONE or a is NONE:
                x = a if b is NONE else b
                if x is NONE:
                    r = TRUE
                elif x.op == "const" or x in self.st.content or x in self.objects or x.op in ("ref", "tuple", "func", "class", "closure", "bound", "list", "add", "mul", "sub", "div", "map", "slice", "dict", "neg", "pow", "matmul", "mod", "floordiv", "invert", "upd"):
                    r = FALSE
                elif x.op == "call" and (x.a[0].startswith("oracle.") or x.a[0].startswith("numpy.") and x.a[0].split(".")[-1] not in ("fill_diagonal", "copyto", "put", "place", "savetxt", "save", "seterr", "putmask")
                                         or x.a[0] in ("len", "range", "float", "int", "str", "list", "tuple", "dict", "set", "sum", "abs", "repr", "sorted", "zip", "enumerate")):
                    r = FALSE
                elif x.op == "ite":
                    memo = {}

                    def nullness(y):
                        if y.op != "ite":
                            return self.compare("is", y, NONE)
                        if y not in memo:
                            memo[y] = truth(ite(y.a[0], nullness(y.a[1]), nullness(y.a[2])))
                        return memo[y]
                    r = nullness(x)
                elif x.op in ("undef",):
                    r = mk("is", x, NONE)
                else:
                    r = mk("is", x, NONE)
            elif a is b:
                r = TRUE
            elif a.op == "const" and b.op == "const":
                r = FALSE
            elif a.op == "ref" and b.op == "ref":
                r = FALSE
            elif self.cfg.arrays and (a.op == "ref" or a in self.objects) and (b.op == "ref" or b in self.objects):
                r = FALSE
            elif a.op in ("class", "func") and b.op in ("class", "func"):
                r = FALSE
            else:
                r = mk("is", a, b)
            return r if op == "is" else negate(r)
        if op in ("eq", "ne", "lt", "le", "gt", "ge"):
            r = self.overloaded(op, a, b)
            if r is not None:
                return r
        if self.cfg.arrays:
            r = self.array_compare(op, a, b)
            if r is not None:
                return r
        x, y = self.val(a), self.val(b)
        if x.op == "const" and y.op == "const":
            try:
                p, q = x.a[0], y.a[0]
                if not text.comparable(p, q) and not (op in ("in", "notin") and isinstance(q, str) and p in q):
                    return mk(op, x, y)
                r = {"eq": lambda: p == q, "ne": lambda: p != q, "lt": lambda: p < q, "le": lambda: p <= q, "gt": lambda: p > q,
                     "ge": lambda: p >= q, "in": lambda: p in q, "notin": lambda: p not in q}[op]()
                return const(bool(r))
            except Exception:
                pass
        if op in ("in", "notin"):
            items = None
            if y.op in ("list", "tuple"):
                items = list(y.a)
            elif y.op == "dict":
                items = [k for k, _ in y.a]
            elif y.op == "call" and y.a[0] in ("set", "frozenset", "dict.keys") and y.a[1] and y.a[1][0].op in ("list", "dict"):
                items = list(y.a[1][0].a) if y.a[1][0].op == "list" else [k for k, _ in y.a[1][0].a]
            if items is not None and self.distinct(a) and all(self.distinct(i) for i in items):
                return const((a in items) == (op == "in"))
            if self.cfg.text and items is not None and len(items) <= 8 and (a.op == "ref" or a in self.objects) and self.typeof(a) is not None and all(self.distinct(i) or (i.op == "ref" or i in self.objects) and self.typeof(i) is not None for i in items):
                out = FALSE
                for i in items:
                    c = TRUE if i is a else self.compare("eq", i, a) if not self.distinct(i) else self.compare("eq", a, i) if not self.distinct(a) else FALSE
                    if c is not FALSE:
                        out = c if out is FALSE else TRUE if TRUE in (c, out) else mk("or", out, c)
                if out in (TRUE, FALSE):
                    return out if op == "in" else negate(out)
            if items is not None and ground(x) and all(ground(i) for i in items) and all(text.comparable(x.a[0], i.a[0]) for i in items if x.op == i.op == "const"):
                r = x in items
                return const(r if op == "in" else not r)
        if op in ("eq", "ne") and ground(x) and ground(y) and "tuple" in (x.op, y.op):
            return const((x is y) == (op == "eq"))
        if op in ("eq", "ne") and x.op == y.op == "list" and "arr" not in (self.kind.get(a), self.kind.get(b)) and all(ground(z) and not (z.op == "const" and text.holes(str(z.a[0]))) for z in x.a + y.a):
            return const((x is y) == (op == "eq"))
        if op in ("eq", "ne"):
            for u, ut, w in ((x, a, y), (y, b, x)):
                if u.op in ("list", "tuple", "dict") and self.kind.get(ut) != "arr" and w.op == "const" and not isinstance(w.a[0], tuple):
                    return const(op == "ne")
        if op in ("gt", "ge"):
            return mk("lt" if op == "gt" else "le", y, x)
        return mk(op, x, y)

    def distinct(self, x):
        """A known object that equals only itself."""
        if x in (NONE, TRUE, FALSE) or x.op in ("class", "func"):
            return True
        c = self.typeof(x)
        return c is not None and (x.op == "ref" or x in self.objects) and c.find("__eq__") is None and not any(isinstance(k, str) and k != "object" for k in c.mro)

    def arranged(self, items, kw, e):
        """Known elements in stable order of their keys, where the facts tell."""
        back = self.val(kw["reverse"]) if "reverse" in kw else FALSE
        if items is None or len(items) > 12 or back not in (TRUE, FALSE):
            return None
        keys = items
        if "key" in kw and kw["key"] is not NONE:
            keys = []
            for x in items:
                k = self.call_term(kw["key"], [x], {}, e)
                if self.st is None:
                    return None
                keys.append(k if k.op == "ref" and self.plainobject(k) else self.val(k))
        if any(k.op in ("const",) and (isinstance(k.a[0], str) or k.a[0] is None) or not self.scalar(k) and not (k.op == "ref" and self.plainobject(k)) for k in keys):
            return None
        if back is TRUE:
            keys = keys[::-1]
        r = self.ordered(keys, stable=True)
        if r is None:
            return None
        return [items[::-1][j] for j in r][::-1] if back is TRUE else [items[j] for j in r]

    def leading(self, n, items, kw, e):
        """The first of the largest or smallest of known elements, by a key or of objects."""
        if items is None or not 0 < len(items) <= 12:
            return None
        keys = items
        if "key" in kw and kw["key"] is not NONE:
            keys = []
            for x in items:
                keys.append(self.call_term(kw["key"], [x], {}, e))
                if self.st is None:
                    return None
        if not all(k.op == "ref" and self.plainobject(k) or self.scalar(self.val(k)) and not (k.op == "const" and (isinstance(k.a[0], str) or k.a[0] is None)) for k in keys):
            return None

        def go(best, k):
            if k == len(items):
                return items[best]
            c = self.known(truth(self.compare("lt", keys[best], keys[k]) if n == "max" else self.compare("lt", keys[k], keys[best])))
            if c is TRUE or c is FALSE:
                return go(k if c is TRUE else best, k + 1)
            return self.branch(c, lambda: go(k, k + 1), lambda: go(best, k + 1))
        return go(0, 1)

    def argsort(self, xs, e):
        """Ascending order of a few values (ties keep their order)."""
        self.here = e
        less = {(i, j): self.known(truth(self.compare("lt", xs[j], xs[i]))) for i in range(len(xs)) for j in range(i + 1, len(xs))}     # j belongs before i

        def put(order, k):
            if k == len(xs):
                return mk("list", *[const(i) for i in order])

            def place(at):
                if at == 0:
                    return put(order[:0] + [k] + order, k + 1)
                c = less[(order[at - 1], k)]
                stay = put(order[:at] + [k] + order[at:], k + 1)
                return stay if c is FALSE else ite(c, place(at - 1), stay)
            return place(len(order))
        return put([], 0)

    def searchsorted(self, xs, x):
        """Where a value belongs among a few ascending ones."""
        out = const(len(xs))
        for k in reversed(range(len(xs))):
            out = ite(self.known(truth(mk("le", x, xs[k]))), const(k), out)
        return out

    def overloaded(self, op, a, b):
        """A comparison defined by the class of the left operand."""
        if a.op == "ite" and a.a[1].op in ("ref", "sym", "ite") and a.a[2].op in ("ref", "sym", "ite") and self.fanout(a) and not any(x.op == "ite" for x in (a.a[1].a + a.a[2].a if a.a[1].op == "ite" else ())):
            if any(self.typeof(x) is not None for x in a.a[1:]):
                return truth(self.branch(a.a[0], lambda: self.compare(op, a.a[1], b), lambda: self.compare(op, a.a[2], b)))
        if a.op == "const" and op in ("eq", "ne") and b.op in ("ref", "sym") and self.typeof(b) is not None:
            return self.overloaded(op, b, a)        # the right operand decides
        if a.op not in ("ref", "sym"):
            return None
        c = self.typeof(a)
        if c is None or any(isinstance(x, str) for x in c.mro if x != "object"):
            return None
        if b.op == "ite" and b.a[1].op in ("ref", "sym", "ite") and b.a[2].op in ("ref", "sym", "ite") and self.fanout(b):
            return truth(self.branch(b.a[0], lambda: self.compare(op, a, b.a[1]), lambda: self.compare(op, a, b.a[2])))
        f = c.find("__%s__" % op)
        if f is None and op == "ne":
            f = c.find("__eq__")
            if f is None:
                return None
            return negate(truth(self.call_func(f, [b], {}, self.here, a)))
        if f is None or len(self.stack) >= self.cfg.maxdepth or self.cfg.opaque(f, a, self):
            return None
        return truth(self.condval(self.call_func(f, [b], {}, self.here, a)))

    def e_BoolOp(self, e):
        # value of and/or: conditions are what matter; build an ite
        def build(vals):
            a = self.eval(vals[0])
            if self.st is None or len(vals) == 1:
                return a
            c = self.known(truth(self.condval(a)))
            if isinstance(e.op, ast.And):
                if c is TRUE:
                    return build(vals[1:])
                if c is FALSE:
                    return a
                return self.branch(c, lambda: build(vals[1:]), lambda: a)
            if c is TRUE:
                return a
            if c is FALSE:
                return build(vals[1:])
            return self.branch(c, lambda: a, lambda: build(vals[1:]))
        return build(e.values)

    def e_IfExp(self, e):
        c = self.cond(e.test)
        if self.st is None:
            return NONE
        if c is TRUE:
            return self.eval(e.body)
        if c is FALSE:
            return self.eval(e.orelse)
        return self.branch(c, lambda: self.eval(e.body), lambda: self.eval(e.orelse))

    def e_JoinedStr(self, e):
        if self.cfg.text:
            return self.fstring(e)
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                t = self.eval(v.value)
                if self.st is None:
                    return NONE
                parts.append(mk("fmt", self.val(t), v.conversion, ast.unparse(v.format_spec) if v.format_spec else ""))
        return mk("fstr", *parts)

    def e_FormattedValue(self, e):
        return self.eval(e.value)

    def e_NamedExpr(self, e):
        v = self.eval(e.value)
        if self.st is not None:
            self.assign(e.target, v, e)
        return v

    def e_Lambda(self, e):
        fi = FuncInfo("<lambda>", self.stack[-1][0].module, e)
        self.uid += 1
        t = mk("closure", self.uid)
        self.closures[t] = (fi, e, len(self.st.envs) - 1)
        return t

    def e_Starred(self, e):
        return mk("star", self.eval(e.value))

    def e_Await(self, e):
        return self.eval(e.value)

    def e_Yield(self, e):
        v = self.eval(e.value) if e.value is not None else NONE
        if self.st is not None:
            self.log("yield", e, value=v)
        return mk("sym", "yielded")

    def comp(self, e, eltf):
        """Returns a content term of the produced sequence."""
        saved = {}
        gens = e.generators

        def level(i, it=None):
            g = gens[i]
            if it is None:
                it = self.eval(g.iter)
                if self.st is None:
                    return mk("list")
                self.log("iter", e, iterable=it, val=self.val(it))
            items = self.items_of(it)
            if items is None:
                v = self.val(it)
                if v.op == "ite" and self.splits(v):
                    return self.branch(v.a[0], lambda: level(i, v.a[1]), lambda: level(i, v.a[2]))
            if items is not None and len(items) <= self.cfg.unroll:
                out = []
                for x in items:
                    self.assign(g.target, x, e)
                    cs = [self.cond(c) for c in g.ifs]
                    c = conj(*cs)
                    if c is FALSE:
                        continue
                    if c is TRUE:
                        v = level(i + 1) if i + 1 < len(gens) else eltf()
                    else:
                        base = self.st.guard
                        self.st.guard = base + (c,)
                        v = level(i + 1) if i + 1 < len(gens) else eltf()
                        if self.st is not None:
                            self.st.guard = base
                    if self.st is None:
                        return mk("list")
                    if c is not TRUE:
                        out.append(("c", c, v))
                    else:
                        out.append(("v", v))
                if all(o[0] == "v" for o in out):
                    if i + 1 < len(gens):
                        if all(o[1].op == "list" for o in out):
                            return mk("list", *[y for o in out for y in o[1].a])
                        return mk("flat", mk("list", *[o[1] for o in out]))
                    return mk("list", *[o[1] for o in out])
                if sum(1 for o in out if o[0] == "c") <= 3 and i + 1 == len(gens):
                    def tree(k, got):
                        if k == len(out):
                            return mk("list", *got)
                        o = out[k]
                        return tree(k + 1, got + [o[1]]) if o[0] == "v" else ite(o[1], tree(k + 1, got + [o[2]]), tree(k + 1, got))
                    return tree(0, [])
                return mk("concat", *[mk("list", o[1]) if o[0] == "v" else ite(o[1], mk("list", o[2]), mk("list")) for o in out])
            self.loopid += 1
            L = self.loopid
            elem, space = self.iteration(it, L)
            self.spaces[L] = space
            self.loops.append((L, space, e))
            base = self.st.guard
            self.assign(g.target, elem, e)
            cs = []
            for c in g.ifs:
                ct = self.cond(c)
                cs.append(ct)
                if self.st is not None and ct not in (TRUE, FALSE):
                    self.st.guard = self.st.guard + (ct,)
            v = level(i + 1) if i + 1 < len(gens) else eltf()
            self.loops.pop()
            if self.st is None:
                return mk("list")
            self.st.guard = base
            c = conj(*cs)
            v = rewrite(v, lambda x: self.st.content.get(x) if x.op == "ref" and self.kind.get(x) in ("list", "arr", "dict") else None)
            if c is TRUE:
                r = mk("map", space, bindpos(v, L))
            else:
                r = mk("fmap", space, bindpos(c, L), bindpos(v, L))
            return r if i + 1 == len(gens) else mk("flat", r)

        names = set()
        for g in gens:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    names.add(n.id)
        for n in names:
            saved[n] = self.env.get(n)
        r = level(0)
        if self.st is not None:
            for n, v in saved.items():
                if v is None:
                    self.env.pop(n, None)
                else:
                    self.env[n] = v
        return r

    def e_ListComp(self, e):
        c = self.comp(e, lambda: self.eval(e.elt))
        if self.st is None:
            return NONE
        return self.fresh("list", node=e, content=c)

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e):
        c = self.comp(e, lambda: self.eval(e.elt))
        if self.st is None:
            return NONE
        return self.fresh("set", node=e, content=self.spread(setof, c) or mk("call", "set", (c,), ()))

    def e_DictComp(self, e):
        c = self.comp(e, lambda: mk("tuple", self.vv(e.key), self.eval(e.value)))
        if self.st is None:
            return NONE
        if c.op == "list" and all(x.op == "tuple" for x in c.a):
            content = mk("dict", *[(x.a[0], x.a[1]) for x in c.a])
        else:
            content = mk("call", "dict", (c,), ())
        return self.fresh("dict", node=e, content=content)

    # ---- calls -------------------------------------------------------------------------------
    def e_Call(self, e):
        f = e.func
        # super().m(...)
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super":
            fn = self.stack[-1][0]
            if fn.cls is not None:
                names = [x.arg for x in fn.node.args.args]
                me = self.env.get(names[0]) if names else None
                if me is not None:
                    args, kw = self.args(e)
                    if self.st is None:
                        return NONE
                    c = self.typeof(me) or fn.cls
                    m = c.find_after(fn.cls, f.attr)
                    if m is not None:
                        return self.call_func(m, args, kw, e, me)
                    if c.issub("list") and (f.attr in ("__getitem__", "__len__") or f.attr in LIST_MUT):
                        return self.base_builtin("list", f.attr, [me] + args, kw, e)
                    return self.opaque_method(f.attr, me, args, kw, e, "super")
        if isinstance(f, ast.Attribute):
            recv = self.eval(f.value)
            if self.st is None:
                return NONE
            args, kw = self.args(e)
            if self.st is None:
                return NONE
            return self.spreadstar(args, lambda args: self.call_method(recv, f.attr, args, kw, e))
        ft = self.eval(f)
        if self.st is None:
            return NONE
        args, kw = self.args(e)
        if self.st is None:
            return NONE
        return self.spreadstar(args, lambda args: self.call_term(ft, args, kw, e))

    def spreadstar(self, args, fn):
        """A call per case where the number of spread arguments depends on the case."""
        for k, x in enumerate(args):
            if isinstance(x, tuple):
                v = self.val(x[1])
                if self.cfg.arrays and v.op == "ite" and self.fanout(v):
                    part = lambda y: self.spreadstar(args[:k] + (list(y.a) if y.op in ("list", "tuple") and not any(z.op == "star" for z in y.a) else [("*", y)]) + args[k + 1:], fn)
                    c = self.known(v.a[0])
                    if c is TRUE or c is FALSE:
                        return part(v.a[1 if c is TRUE else 2])
                    return self.branch(v.a[0], lambda: part(v.a[1]), lambda: part(v.a[2]))
        return fn(args)

    def args(self, e):
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                t = self.eval(a.value)
                if self.st is None:
                    return args, {}
                items = self.items_of(t)
                if items is not None:
                    args.extend(items)
                else:
                    args.append(("*", t))
            else:
                args.append(self.eval(a))
            if self.st is None:
                return args, {}
        kw = {}
        for k in e.keywords:
            v = self.eval(k.value)
            if self.st is None:
                return args, kw
            if k.arg is None:
                dv = self.val(v)
                if dv.op == "dict" and all(x.op == "const" for x, _ in dv.a):
                    for x, y in dv.a:
                        kw[x.a[0]] = y
                else:
                    kw.setdefault("**", []).append(v)
            else:
                kw[k.arg] = v
        return args, kw

    def flatargs(self, args):
        return tuple(mk("star", self.val(a[1])) if isinstance(a, tuple) else self.val(a) for a in args)

    def flatkw(self, kw):
        out = []
        for k in sorted(kw):
            if k == "**":
                out.append(("**", mk("tuple", *[self.val(x) for x in kw[k]])))
            else:
                out.append((k, self.val(kw[k])))
        return tuple(out)

    def call_term(self, ft, args, kw, e):
        if ft.op == "ite":
            return self.branch(ft.a[0], lambda: self.call_term(ft.a[1], args, kw, e), lambda: self.call_term(ft.a[2], args, kw, e))
        if ft.op == "func":
            return self.call_func(self.funcs[ft.a[0]], args, kw, e, None)
        if ft.op == "class":
            return self.construct(self.funcs[ft.a[0]], args, kw, e)
        if ft.op == "bound":
            return self.call_func(self.funcs[ft.a[1]], args, kw, e, ft.a[0])
        if ft.op == "closure":
            fi, node, depth = self.closures[ft]
            if len(self.stack) < self.cfg.maxdepth and depth < len(self.st.envs) and sum(s[1] is node for s in self.stack) < self.cfg.recursion:
                env = self.bind(fi, args, kw, e, None, node)
                if env is not None:
                    self.log("call", e, name=fi.name, recv=None, args=tuple(args), kw=kw, target=fi, inlined=True)
                    return self.inline(fi, node, env, depth)
            return self.opaque_call("closure", args, kw, e)
        if ft.op == "builtin":
            return self.builtin(ft.a[0], args, kw, e)
        if ft.op == "glob":
            return self.external(ft.a[0], args, kw, e)
        if ft.op == "call" and ft.a[0] == "type" and len(ft.a[1]) == 1:
            c = self.typeof(ft.a[1][0])
            if c is not None:
                return self.construct(c, args, kw, e)
        return self.opaque_call("<value>", args, kw, e, ft)

    def construct(self, cls, args, kw, e):
        ev = self.log("call", e, name=cls.name, recv=None, args=tuple(args), kw=kw, target=cls, inlined=True, construct=True)
        r = self.fresh("obj", cls=cls, node=e)
        if any(isinstance(x, str) and x == "list" for x in cls.mro):
            src = self.flatargs(args)
            self.kind[r] = "obj"
            if not args:
                self.st.content[r] = mk("list")
            elif len(args) == 1 and not isinstance(args[0], tuple):
                self.st.content[r] = self.val(args[0])
        init = cls.find("__init__")
        if init is not None:
            if self.cfg.opaque(init, r, self) or len(self.stack) >= self.cfg.maxdepth:
                for i, a in enumerate(args):
                    if not isinstance(a, tuple):
                        self.st.attrs[(r, "$arg%d" % i)] = a
                for k, a in kw.items():
                    if k != "**":
                        self.st.attrs[(r, "$" + k)] = a
            else:
                self.call_func(init, args, kw, e, r, quiet=True)
                if self.st is None:
                    return NONE
        if ev is not None:
            ev.data["result"] = r
        return r

    def call_func(self, f, args, kw, e, recv, quiet=False):
        if f.static:
            selfterm = None
        else:
            selfterm = recv
        # unbound call Class.m(obj, ...)
        if selfterm is None and f.cls is not None and not f.static and args and not isinstance(args[0], tuple):
            recv = args[0]
            selfterm, args = args[0], args[1:]
        ev = None
        if not quiet:
            ev = self.log("call", e, name=f.name, recv=recv, args=tuple(args), kw=kw, target=f, inlined=True,
                          vals=None)
        busy = sum(1 for s in self.stack if s[0] is f)
        if f.classmethod:
            return self.opaque_func(f, args, kw, e, recv, ev)
        stub = self.cfg.stubs.get(f.short)
        if stub is not None:
            env = self.bind(f, args, kw, e, selfterm)
            if env is not None:
                names = [[x.arg for x in g.node.args.posonlyargs + g.node.args.args + g.node.args.kwonlyargs] + ([g.node.args.vararg.arg] if g.node.args.vararg else [])
                         + ([g.node.args.kwarg.arg] if g.node.args.kwarg else []) for g in (f, stub)]
                v = self.inline(stub, stub.node, {b: env[a] for a, b in zip(*names) if a in env})
                if ev is not None:
                    ev.data["result"] = v
                return v
        if busy >= self.cfg.recursion or len(self.stack) >= self.cfg.maxdepth or self.cfg.opaque(f, recv, self):
            return self.opaque_func(f, args, kw, e, recv, ev)
        env = self.bind(f, args, kw, e, selfterm)
        if env is None and self.cfg.text and self.misfit:
            return self.failed("TypeError", e)
        if env is None:
            return self.opaque_func(f, args, kw, e, recv, ev)
        if selfterm is not None and self.typeof(selfterm) is None:
            self.classof.setdefault(selfterm, f.cls)
        v = self.inline(f, f.node, env)
        if ev is not None:
            ev.data["result"] = v
        return v

    def opaque_func(self, f, args, kw, e, recv, ev):
        if ev is not None:
            ev.data["inlined"] = False
        if self.cfg.hook:
            r = self.cfg.hook(self, f, recv, args, kw, e, ev)
            if r is not None:
                if ev is not None:
                    ev.data["result"] = r
                return r
        self.snap(None, e)
        pure = f.name in self.cfg.pure
        tag = ""
        if not pure:
            self.seq += 1
            tag = str(self.seq)
        if recv is not None:
            r = mk("mcall", f.name, self.val(recv) if self.classof.get(recv) is None else recv, self.flatargs(args), self.flatkw(kw), tag)
        elif f.cls is not None and f.static:
            r = mk("call", f.cls.name + "." + f.name, self.flatargs(args), self.flatkw(kw) + ((("$", const(tag)),) if tag else ()))
        else:
            r = mk("call", f.qual, self.flatargs(args), self.flatkw(kw) + ((("$", const(tag)),) if tag else ()))
        if ev is not None:
            ev.data["result"] = r
        return r

    def opaque_call(self, name, args, kw, e, ft=None):
        if not name.startswith("oracle."):       # an unknown of a specification: never fails
            self.snap("builtin", e)
        ev = self.log("call", e, name=name, recv=None, args=tuple(args), kw=kw, target=None, inlined=False, fterm=ft)
        if self.cfg.hook and "." in name:
            r = self.cfg.hook(self, name, None, args, kw, e, ev)
            if r is not None:
                if ev is not None:
                    ev.data["result"] = r
                return r
        fa = self.flatargs(args)
        r = mk("call", name, ((ft,) if ft is not None else ()) + fa, self.flatkw(kw))
        if ev is not None:
            ev.data["result"] = r
        return r

    def opaque_method(self, name, recv, args, kw, e, how=""):
        self.snap(None, e)
        ev = self.log("call", e, name=name, recv=recv, args=tuple(args), kw=kw, target=None, inlined=False)
        if self.cfg.hook:
            r = self.cfg.hook(self, name, recv, args, kw, e, ev)
            if r is not None:
                if ev is not None:
                    ev.data["result"] = r
                return r
        pure = name in PURE_METHODS or name in self.cfg.pure
        tag = ""
        if not pure:
            self.seq += 1
            tag = str(self.seq)
        rv = recv if self.typeof(recv) is not None else self.val(recv)
        r = mk("mcall", name, rv, self.flatargs(args), self.flatkw(kw), tag)
        if ev is not None:
            ev.data["result"] = r
        if name in ("copy",) and self.typeof(recv) is None:
            n = self.fresh("arr", node=e, content=self.val(recv))
            if ev is not None:
                ev.data["result"] = n
            return n
        return r

    def call_method(self, recv, name, args, kw, e):
        if recv.op == "ite":
            a, b = recv.a[1], recv.a[2]
            if a is NONE or a.op == "undef":
                return self.call_method(b, name, args, kw, e)
            if b is NONE or b.op == "undef":
                return self.call_method(a, name, args, kw, e)
            if not self.fanout(recv):
                return self.opaque_method(name, recv, args, kw, e, "many")
            return self.branch(recv.a[0], lambda: self.call_method(a, name, args, kw, e), lambda: self.call_method(b, name, args, kw, e))
        if recv.op == "slice" and name == "indices" and len(args) == 1 and all(x is NONE or x.op == "const" for x in recv.a) and not isinstance(args[0], tuple) and self.val(args[0]).op == "const":
            return mk("tuple", *[const(k) for k in slice(*[x.a[0] for x in recv.a]).indices(self.val(args[0]).a[0])])
        if recv.op == "class" and name == "__call__":
            return self.construct(self.funcs[recv.a[0]], args, kw, e)
        if recv.op in ("module", "glob", "class", "builtin"):
            ft = self.getattr(recv, name, e)
            if recv.op == "builtin" and recv.a[0] == "dict" and name == "fromkeys" and not kw:
                fa = self.flatargs(args)
                ks = self.val(fa[0]) if fa else NONE
                if len(fa) in (1, 2) and ks.op in ("list", "tuple") and len(args) == 1 and self.cfg.arrays and all(k.op == "ref" or k in self.objects or ground(k) for k in ks.a):
                    return self.fresh("dict", node=e, content=mk("dict", *[(k, NONE) for k in dict.fromkeys(ks.a)]))
                if len(fa) in (1, 2) and ks.op in ("list", "tuple") and all(ground(k) for k in ks.a):
                    d = mk("dict")
                    for k in ks.a:
                        d = self.upd(d, k, args[1] if len(args) > 1 else NONE, args[1] if len(args) > 1 else NONE)
                    return self.fresh("dict", node=e, content=d)
            if recv.op == "builtin" and recv.a[0] in ("list", "dict", "object", "Exception") :
                return self.base_builtin(recv.a[0], name, args, kw, e)
            if ft.op == "func":
                f = self.funcs[ft.a[0]]
                return self.call_func(f, args, kw, e, None)
            if ft.op == "attr" and recv.op == "class":
                return self.opaque_method(name, recv, args, kw, e)
            return self.call_term(ft, args, kw, e)
        if (recv, name) in self.st.attrs:
            return self.call_term(self.st.attrs[(recv, name)], args, kw, e)
        c = self.typeof(recv)
        if c is not None:
            if name == "__class__":
                return self.construct(c, args, kw, e)
            f = c.find(name)
            if f is not None:
                return self.call_func(f, args, kw, e, recv)
        if name == "__call__":
            return self.call_term(recv, args, kw, e)
        return self.seq_method(recv, name, args, kw, e, c)

    def base_builtin(self, base, name, args, kw, e):
        if base == "object" or name == "__init__":
            self.log("call", e, name=base + "." + name, recv=args[0] if args else None, args=tuple(args[1:]), kw=kw, target=None, inlined=False)
            if base == "list" and name == "__init__" and args and not isinstance(args[0], tuple):
                rest = args[1:]
                if rest and not isinstance(rest[0], tuple):
                    self.st.content[args[0]] = self.val(rest[0])
                elif not rest:
                    self.st.content[args[0]] = mk("list")
            return NONE
        if base == "list" and name == "__getitem__" and len(args) == 2:
            k = self.val(args[1])
            return self._get(self.val(args[0]), k, args[0], {})
        if base == "list" and name == "__len__" and len(args) == 1:
            return self.length(args[0])
        if args and not isinstance(args[0], tuple):
            return self.seq_method(args[0], name, args[1:], kw, e, None)
        return self.opaque_call(base + "." + name, args, kw, e)

    def seq_method(self, recv, name, args, kw, e, c):
        """Methods of lists, dicts, arrays, strings; anything unknown is opaque."""
        v = self.val(recv)
        k = self.kind.get(recv)
        a0 = args[0] if args and not isinstance(args[0], tuple) else None
        if self.cfg.text and v.op == "const":
            r = self.failed("AttributeError", e) if v is NONE else self.text_pattern(v, name, args, kw, e) if isinstance(v.a[0], re.Pattern) else self.text_method(v, name, args, kw, e)
            if r is not None:
                return r
        if name in LIST_MUT and self.cfg.arrays and v.op == "ite" and k == "list" and recv in self.st.content and self.fanout(v) and name not in ("append", "extend"):
            def part(y):
                self.st.content[recv] = y
                return self.seq_method(recv, name, args, kw, e, c)
            g = self.known(v.a[0])
            if g is TRUE or g is FALSE:
                return part(v.a[1 if g is TRUE else 2])
            return self.branch(v.a[0], lambda: part(v.a[1]), lambda: part(v.a[2]))
        if name in LIST_MUT:
            self.log("mutcall", e, base=recv, name=name, args=tuple(args), kw=kw, val=v)
            if name == "append" and a0 is not None:
                self.mutate(recv, lambda x: self.canon_seq(mk("app", x, a0)))
                return NONE
            if name == "extend" and a0 is not None:
                if (self.cfg.text or self.cfg.arrays) and self.val(a0) is NONE:
                    return self.failed("TypeError", e)
                self.mutate(recv, lambda x: self.canon_seq(mk("ext", x, self.val(a0))))
                return NONE
            if v.op == "list" and not kw and all(not isinstance(x, tuple) for x in args) and not any(x.op == "star" for x in v.a):
                fa = self.flatargs(args)
                l = list(v.a)
                if name == "remove" and len(fa) == 1 and (self.cfg.text or fa[0] in l) and ground(fa[0]) and all(ground(x) and (x.op != "const" or fa[0].op != "const" or text.comparable(x.a[0], fa[0].a[0])) for x in l):
                    if fa[0] not in l:
                        return self.failed("ValueError", e)
                    l.remove(fa[0])
                    self.st.content[recv] = mk("list", *l)
                    return NONE
                ci = fa and fa[0].op == "const" and isinstance(fa[0].a[0], int) and not isinstance(fa[0].a[0], bool)
                if name == "insert" and ci and len(fa) == 2:
                    l.insert(fa[0].a[0], args[1])
                    self.st.content[recv] = mk("list", *l)
                    return NONE
                if name == "pop" and l and (not fa or ci and -len(l) <= fa[0].a[0] < len(l)):
                    x = l.pop(*([fa[0].a[0]] if fa else []))
                    self.st.content[recv] = mk("list", *l)
                    return x
                if name in ("clear", "reverse") and not fa:
                    self.st.content[recv] = mk("list", *(l[::-1] if name == "reverse" else []))
                    return NONE
            if name == "update" and a0 is not None and v.op == "dict" and self.val(a0).op == "dict":
                d = v
                for kk, vv in self.val(a0).a:
                    d = self.upd(d, kk, vv, vv)
                self.st.content[recv] = d
                return NONE
            if name == "pop" and a0 is not None and v.op == "dict" and ground(a0) and not kw and all(isinstance(x, tuple) and ground(x[0]) for x in v.a):
                for kk, vv in v.a:
                    if kk is a0:
                        self.st.content[recv] = self.deleted(v, a0)
                        return vv
                if len(args) > 1:
                    return args[1]
                if self.cfg.text:
                    return self.failed("KeyError", e)
            if name == "setdefault" and a0 is not None and v.op == "dict":
                for kk, vv in v.a:
                    if kk is a0:
                        return vv
            if name == "sort" and not args and self.cfg.arrays and recv.op == "ref" and v.op == "list" and set(kw) <= {"key", "reverse"}:
                r = self.arranged(list(v.a), kw, e)
                if r is not None:
                    self.st.content[recv] = mk("list", *r)
                    return NONE
            if name == "sort" and not args and not kw:
                r = self.spread(lambda x: mk("list", *[const(y) for y in sorted(ints(x))]) if x.op == "list" and ints(x) is not None else None, v)
                if r is not None and recv.op == "ref":
                    self.st.content[recv] = r
                    return NONE
            self.snap("builtin", e)
            self.seq += 1
            tag = str(self.seq)
            fa, fk = self.flatargs(args), self.flatkw(kw)
            old = v
            self.mutate(recv, lambda x: mk("mut", name, x, fa, fk))
            if name in ("pop", "popitem", "setdefault"):
                r = mk("mcall", name, old, fa, fk, "")
                return r
            return NONE
        if name in ("items", "keys", "values") and not args:
            if v.op == "dict" and all(x.op != "star" for x, _ in v.a):
                if name == "items":
                    return mk("list", *[mk("tuple", x, y) for x, y in v.a])
                return mk("list", *[(x if name == "keys" else y) for x, y in v.a])
            self.log("call", e, name=name, recv=recv, args=(), kw=kw, target=None, inlined=False)
            return mk("call", "dict." + name, (v,), ())
        if name == "get" and v.op == "dict" and a0 is not None and ground(a0) and all(ground(x) for x, _ in v.a):
            for x, y in v.a:
                if x is a0:
                    return y
            return args[1] if len(args) > 1 else NONE
        if name == "index" and v.op in ("list", "tuple") and len(args) == 1 and not kw and a0 is not None and self.distinct(a0) and all(self.distinct(x) for x in v.a):
            return const(list(v.a).index(a0)) if a0 in v.a else self.failed("ValueError", e)
        if name == "count" and self.cfg.arrays and v.op in ("list", "tuple") and len(args) == 1 and not kw and a0 is not None and (a0 is NONE or self.distinct(a0)):
            same = [self.known(truth(self.compare("is", x, a0))) if a0 is NONE else TRUE if x is a0 else FALSE if self.distinct(x) else None for x in v.a]
            if all(x in (TRUE, FALSE) for x in same):
                return const(same.count(TRUE))
        if name == "copy" and not args and (c is None):
            ev = self.log("call", e, name=name, recv=recv, args=(), kw=kw, target=None, inlined=False)
            kind = k if k in ("list", "dict") else "arr"
            r = self.fresh(kind, node=e, content=v)
            if ev is not None:
                ev.data["result"] = r
            return r
        if name in ("transpose",) and not args:
            return mk("attr", v, "T")
        if self.cfg.arrays:
            r = self.array_method(name, recv, args, kw, e)
            if r is not None:
                return r
        if name in ("sum", "mean", "max", "min", "any", "all", "argsort", "argmax", "argmin", "ravel", "cumsum", "searchsorted", "dot", "flatten", "tolist", "std", "ptp") and c is None and v.op not in ("glob",):
            self.log("call", e, name=name, recv=recv, args=tuple(args), kw=kw, target=None, inlined=False)
            if name in ("ravel", "flatten", "tolist") and v.op == "list" and not args:
                return recv if name == "ravel" else self.fresh("arr" if name == "flatten" else "list", node=e, content=v)
            if name == "argsort" and not args and not kw and plain(v) is not None and len(plain(v)) <= 3:
                return self.argsort(plain(v), e)
            if name == "searchsorted" and len(args) == 1 and not kw and plain(v) is not None and len(plain(v)) <= 4 and not isinstance(args[0], tuple):
                return self.searchsorted(plain(v), self.flatargs(args)[0])
            if name in ("sum", "any", "all") and not args and not kw and mask_of(v) is not None:
                return const({"sum": sum, "any": any, "all": all}[name](mask_of(v)))
            return mk("call", "numpy." + name, (v,) + self.flatargs(args), self.flatkw(kw))
        if v.op == "const" and isinstance(v.a[0], str):
            fa = self.flatargs(args)
            if name in ("split", "upper", "lower", "strip", "startswith", "endswith", "format") and all(x.op == "const" for x in fa) and not kw:
                try:
                    r = getattr(v.a[0], name)(*[x.a[0] for x in fa])
                    if isinstance(r, list):
                        return self.fresh("list", node=e, content=mk("list", *[const(x) for x in r]))
                    return const(r)
                except Exception:
                    pass
            if name == "join":
                self.log("call", e, name=name, recv=recv, args=tuple(args), kw=kw, target=None, inlined=False)
                return mk("mcall", "join", v, tuple(self.deep(x) for x in fa), (), "")
        return self.opaque_method(name, recv, args, kw, e)

    def builtin(self, n, args, kw, e):
        if self.cfg.text:
            r = self.text_builtin(n, args, kw, e)
            if r is not None:
                return r
        fa = self.flatargs(args)
        raw = [a for a in args]
        if n == "len" and len(fa) == 1:
            c = self.typeof(raw[0]) if not isinstance(raw[0], tuple) else None
            if c is not None:
                f = c.find("__len__")
                if f is not None:
                    return self.call_func(f, [], {}, e, raw[0])
            if fa[0].op != "ref":
                return self.length(raw[0])
            return mk("call", "len", fa, ())
        if n == "isinstance" and len(raw) == 2:
            r = self.isinstance_(raw[0], raw[1])
            if r is not None:
                return r
            return mk("call", "isinstance", (raw[0], self.val(raw[1])), ())
        if n == "hasattr" and len(raw) == 2 and fa[1].op == "const":
            c = self.typeof(raw[0])
            if c is not None:
                if c.find(fa[1].a[0]) or (raw[0], fa[1].a[0]) in self.st.attrs:
                    return TRUE
                if self.cfg.text and raw[0].op == "ref" and c.find("__getattr__") is None and c.find_attr(fa[1].a[0]) is None and all(not isinstance(k, str) or k in ("object", "list") for k in c.mro):
                    return FALSE
            if self.cfg.arrays:
                if raw[0].op == "ite" and self.fanout(raw[0], 8):
                    return truth(ite(raw[0].a[0], *[self.builtin(n, [x, raw[1]], {}, e) for x in raw[0].a[1:]]))
                if fa[0].op == "const":
                    return const(hasattr(fa[0].a[0], fa[1].a[0]))
                if raw[0].op == "ref" and c is None and self.kind.get(raw[0]) in ("list", "dict"):
                    return const(hasattr({"list": [], "dict": {}}[self.kind[raw[0]]], fa[1].a[0]))
            return mk("call", "hasattr", fa, ())
        if n == "getattr" and len(raw) >= 2 and fa[1].op == "const":
            return self.getattr(raw[0], fa[1].a[0], e)
        if n == "setattr" and len(raw) == 3:
            if fa[1].op == "const":
                self.setattr(raw[0], fa[1].a[0], raw[2], e)
            else:
                self.log("setattr", e, base=raw[0], attr=fa[1], value=raw[2], old=NONE, aug=False, val=fa[2])
                self.st.attrs[(raw[0], fa[1])] = raw[2]
            return NONE
        if n == "type" and len(raw) == 1:
            c = self.typeof(raw[0])
            if c is not None and raw[0].op == "ref":
                self.funcs[c.qual] = c
                return mk("class", c.qual)
            return mk("call", "type", (raw[0],), ())
        if n in ("list", "tuple", "dict", "set", "frozenset", "sorted"):
            ev = self.log("call", e, name=n, recv=None, args=tuple(args), kw=kw, target=None, inlined=False)
            if n == "tuple":
                items = self.items_of(raw[0]) if raw and not isinstance(raw[0], tuple) else None
                if items is not None:
                    return mk("tuple", *items)
                return mk("call", "tuple", fa, ())
            if n == "list":
                items = self.items_of(raw[0]) if raw and not isinstance(raw[0], tuple) else ([] if not raw else None)
                if items is not None:
                    return self.fresh("list", node=e, content=mk("list", *items))
                if len(fa) == 1 and not isinstance(raw[0], tuple):
                    r = self.spread(lambda x: mk("list", *plain(x)) if plain(x) is not None else mk("list", *[const(y) for y in sorted(ints(x))]) if ints(x) is not None else None, fa[0])
                    if r is not None:
                        return self.fresh("list", node=e, content=r)
                if fa and fa[0].op in ("map", "fmap", "concat", "idx"):
                    return self.fresh("list", node=e, content=fa[0])
                return self.fresh("list", node=e, content=mk("call", "list", fa, ()))
            if n == "dict":
                if not fa:
                    return self.fresh("dict", node=e, content=mk("dict", *[(const(k), v) for k, v in kw.items() if k != "**"]))
                if fa[0].op == "dict":
                    return self.fresh("dict", node=e, content=fa[0])
                ps = self.items_of(raw[0]) if len(raw) == 1 and not isinstance(raw[0], tuple) else None
                ps = None if ps is None else [self.items_of(x) for x in ps]
                if ps is not None and all(x is not None and len(x) == 2 and ground(x[0]) for x in ps):
                    d = mk("dict")
                    for x, y in ps:
                        d = self.upd(d, x, self.val(y), y)
                    for k, v in kw.items():
                        d = self.upd(d, const(k), self.val(v), v) if k != "**" else mk("call", "dict", (d, self.val(v)), ())
                    return self.fresh("dict", node=e, content=d)
                return self.fresh("dict", node=e, content=mk("call", "dict", fa, self.flatkw(kw)))
            if n == "sorted" and len(fa) == 1 and not kw:
                r = self.spread(lambda x: mk("list", *[const(y) for y in sorted(ints(x))]) if ints(x) is not None else None, fa[0])
                if r is not None:
                    return self.fresh("list", node=e, content=r)
            if n == "sorted" and len(raw) == 1 and self.cfg.arrays and set(kw) <= {"key", "reverse"}:
                r = self.arranged(self.items_of(raw[0]) if not isinstance(raw[0], tuple) else None, kw, e)
                if r is not None:
                    return self.fresh("list", node=e, content=mk("list", *r))
            if n == "set" and len(fa) <= 1:
                r = self.spread(setof, fa[0] if fa else mk("list"))
                if r is not None:
                    return self.fresh("set", node=e, content=r)
            if n == "sorted":
                return self.fresh("list", node=e, content=mk("call", "sorted", fa, self.flatkw(kw)))
            return self.fresh("set", node=e, content=mk("call", n, fa, ()))
        if n in ("float", "int") and len(fa) == 1 and fa[0].op == "const" and isinstance(fa[0].a[0], (int, float)) and not isinstance(fa[0].a[0], bool):
            return const(float(fa[0].a[0]) if n == "float" else int(fa[0].a[0]))
        if n == "str" and len(fa) == 1 and fa[0].op == "const" and isinstance(fa[0].a[0], (int, str)):
            return const(str(fa[0].a[0]))
        if n in ("int", "float") and len(fa) == 1 and fa[0].op == "const" and isinstance(fa[0].a[0], str):
            try:
                return const(int(fa[0].a[0]) if n == "int" else float(fa[0].a[0]))
            except ValueError:
                pass
        if n == "bool" and len(fa) == 1:
            return truth(fa[0])
        if n in ("range", "zip", "enumerate", "reversed", "abs", "min", "max", "sum", "round", "repr", "str", "int", "float", "map", "filter", "any", "all",
                 "slice", "callable", "iter", "next", "id", "hash", "ord", "chr", "divmod", "pow", "format"):
            if n == "slice":
                xs = list(fa)
                if len(xs) == 1:
                    return mk("slice", NONE, xs[0], NONE)
                return mk("slice", *((xs + [NONE])[:3]))
            if self.cfg.arrays and n == "abs" and len(raw) == 1 and not isinstance(raw[0], tuple):
                r = self.array_call("numpy.abs", [raw[0]], {}, e)
                if r is not None:
                    return r
            if n == "next" and len(raw) == 1 and not isinstance(raw[0], tuple) and self.typeof(raw[0]) is not None and self.typeof(raw[0]).find("__next__") is not None:
                return self.call_func(self.typeof(raw[0]).find("__next__"), [], {}, e, raw[0])
            if self.cfg.arrays and n in ("min", "max") and fa and set(kw) <= {"key"} and not any(isinstance(x, tuple) for x in raw):
                items = self.items_of(raw[0]) if len(raw) == 1 else list(raw)
                if items is not None and (kw or all(x.op == "ref" and self.plainobject(x) for x in items)):
                    r = self.leading(n, items, kw, e)
                    if r is not None or self.st is None:
                        return NONE if r is None else r
            if self.cfg.arrays and n in ("min", "max", "sum", "any", "all") and fa and not kw and not any(isinstance(x, tuple) for x in raw):
                items = self.items_of(raw[0]) if len(raw) == 1 else list(fa) if n in ("min", "max") else None
                if items is not None and (n not in ("min", "max", "sum") or (items or n == "sum") and all(self.scalar(self.val(x)) for x in items)):
                    r = self.reduce_(n, [self.val(x) for x in items]) if items or n != "sum" else const(0)
                    if r is not None:
                        return r
                if items is None and n in ("sum", "any", "all") and fa[0].op == "ite" and self.fanout(fa[0], 12):
                    def total(u):
                        l = plain(u) if u.op in ("list", "call") else None
                        return None if l is None or not all(self.scalar(self.val(x)) for x in l) else const(0) if n == "sum" and not l else self.reduce_(n, [self.val(x) for x in l])
                    r = self.spread(total, fa[0])
                    if r is not None:
                        return r
            if n in ("sum", "any", "all") and len(fa) == 1 and not kw:
                self.log("call", e, name=n, recv=None, args=tuple(args), kw=kw, target=None, inlined=False)
                if n == "sum" and fa[0].op in ("map",):
                    return mk("sum", fa[0])
                return mk("call", n, fa, ())
            ev = self.log("call", e, name=n, recv=None, args=tuple(args), kw=kw, target=None, inlined=False)
            if n == "map" and len(raw) >= 2 and not isinstance(raw[0], tuple) and raw[0].op in ("closure", "func", "bound", "builtin", "glob", "class"):
                its = raw[1:]
                if len(its) == 1 and not isinstance(its[0], tuple):
                    items = self.items_of(its[0])
                    if items is not None and len(items) <= self.cfg.unroll:
                        return self.fresh("list", node=e, content=mk("list", *[self.call_term(raw[0], [x], {}, e) for x in items]))
                    self.loopid += 1
                    L = self.loopid
                    elem, space = self.iteration(its[0], L)
                    self.loops.append((L, space, e))
                    v = self.call_term(raw[0], [elem], {}, e)
                    self.loops.pop()
                    if self.st is None:
                        return NONE
                    return self.fresh("list", node=e, content=mk("map", space, bindpos(v, L)))
            if n == "range" and any(x.op == "ite" for x in fa) and not kw:
                r = self.spread(lambda *x: mk("call", "range", x, ()) if all(y.op == "const" and isinstance(y.a[0], int) for y in x) else None, *fa)
                if r is not None:
                    return r
            if n == "reversed" and len(fa) == 1 and fa[0].op == "ite":
                r = self.spread(lambda x: mk("list", *plain(x)[::-1]) if plain(x) is not None else None, fa[0])
                if r is not None:
                    return r
            if n in ("int", "float", "next"):
                self.snap("builtin", e)
            if n == "next":
                self.seq += 1
                return mk("call", n, fa, (("$", const(str(self.seq))),))
            if n == "iter" and len(fa) == 1:
                return fa[0]
            return mk("call", n, fa, self.flatkw(kw))
        if n in ("print",):
            self.log("call", e, name=n, recv=None, args=tuple(args), kw=kw, target=None, inlined=False)
            return NONE
        if n in BUILTIN_EXC:
            return mk("excval", tuple(BUILTIN_EXC[n]), 0)
        if n == "super":
            return mk("sym", "super")
        self.snap("builtin", e)
        ev = self.log("call", e, name=n, recv=None, args=tuple(args), kw=kw, target=None, inlined=False)
        self.seq += 1
        r = mk("call", n, fa, self.flatkw(kw) + (("$", const(str(self.seq))),))
        if ev is not None:
            ev.data["result"] = r
        return r

    def isinstance_(self, x, ct):
        cts = self.items_of(ct) if ct.op in ("tuple",) else [ct]
        if cts is None:
            return None
        if x.op == "ite":
            if not self.fanout(x, 32):
                return None
            a, b = self.isinstance_(x.a[1], ct), self.isinstance_(x.a[2], ct)
            if a is not None and b is not None:
                return truth(ite(x.a[0], a, b))
            return None
        if x is NONE:
            return FALSE
        if all(k.op == "builtin" for k in cts):
            t = self.pytype(x)
            if t is not None:
                return const(any(k.a[0] in t for k in cts))
        c = self.typeof(x)
        if c is None:
            return None
        res = None
        for k in cts:
            if k.op == "class":
                kc = self.funcs[k.a[0]]
                if c.issub(kc):
                    return TRUE
                if kc.issub(c):
                    res = "maybe"
            elif k.op == "builtin":
                if c.issub(k.a[0]):
                    return TRUE
            else:
                res = "maybe"
        if res is None and (x.op == "ref" or not self.p.subclasses(c, strict=True)):
            return FALSE
        return FALSE if res is None else None

    def pytype(self, x):
        """Names of the builtin types of a value, if evident."""
        if x.op == "const":
            return [k.__name__ for k in type(x.a[0]).__mro__]
        if x.op in ("tuple", "slice"):
            return [x.op, "object"]
        if x.op == "ref" and self.typeof(x) is None:
            return {"list": ["list", "object"], "dict": ["dict", "object"], "set": ["set", "object"], "arr": ["ndarray", "object"]}.get(self.kind.get(x))
        return None

    def external(self, name, args, kw, e):
        name = canonical(name)
        if self.cfg.text:
            r = self.text_external(name, args, kw, e)
            if r is not None:
                return r
        if self.cfg.arrays:
            r = self.array_call(name, args, kw, e)
            if r is not None:
                return r
        fa = self.flatargs(args)
        fk = self.flatkw(kw)
        self.snap("builtin", e)
        ev = self.log("call", e, name=name, recv=None, args=tuple(args), kw=kw, target=None, inlined=False, external=True)
        if self.cfg.hook:
            r = self.cfg.hook(self, name, None, args, kw, e, ev)
            if r is not None:
                if ev is not None:
                    ev.data["result"] = r
                return r
        if name.startswith("oracle."):       # an unknown of a specification
            return mk("call", name, tuple(self.deep(x) for x in fa), fk)
        if name in ("numpy.abs", "numpy.absolute", "numpy.fabs"):
            name = "numpy.abs"
        if name in ("numpy.sum", "numpy.count_nonzero") and len(fa) == 1 and not fk and mask_of(fa[0]) is not None:
            return const(sum(mask_of(fa[0])))
        if name in ("numpy.any", "numpy.all") and len(fa) == 1 and not fk and mask_of(fa[0]) is not None:
            return const((any if name == "numpy.any" else all)(mask_of(fa[0])))
        if name in ("numpy.concatenate", "numpy.hstack") and len(fa) == 1 and not fk:
            parts = self.items_of(args[0]) if not isinstance(args[0], tuple) else None
            if parts is not None and parts and all(plain(self.val(x)) is not None for x in parts):
                return self.fresh("arr", node=e, content=mk("list", *[y for x in parts for y in plain(self.val(x))]))
        if name in ("numpy.flatnonzero", "numpy.nonzero", "numpy.where", "numpy.argwhere") and len(fa) == 1 and not fk and mask_of(fa[0]) is not None and name != "numpy.argwhere":
            r = self.fresh("arr", node=e, content=mk("call", "numpy.array", (mk("list", *[const(k) for k, x in enumerate(mask_of(fa[0])) if x]),), ()))
            r = r if name == "numpy.flatnonzero" else mk("tuple", r)
            if ev is not None:
                ev.data["result"] = r
            return r
        if name == "numpy.argsort" and len(fa) == 1 and not fk and plain(fa[0]) is not None and len(plain(fa[0])) <= 3:
            return self.argsort(plain(fa[0]), e)
        if name == "numpy.where" and len(fa) == 3 and not fk:
            es = [plain(x) for x in fa]
            if es[0] is None and mask_of(fa[0]) is not None:
                es[0] = [const(bool(x)) for x in mask_of(fa[0])]
            if es[0] is not None and all(x is None or len(x) == len(es[0]) for x in es) and all(x is not None or y.op in ("const", "sym") for x, y in zip(es, fa)):
                out = [ite(truth(k), *[x[j] if x is not None else y for x, y in zip(es[1:], fa[1:])]) for j, k in enumerate(es[0])]
                return self.fresh("arr", node=e, content=mk("call", "numpy.array", (mk("list", *out),), ()))
        if name == "numpy.isscalar" and fa and fa[0].op == "const":
            return const(isinstance(fa[0].a[0], (int, float, str)))
        if name in ("numpy.asarray", "numpy.asanyarray", "numpy.atleast_1d"):
            r = mk("call", name, fa, fk)
        elif name in FRESH_CALLS:
            content = mk("call", name, fa, fk)
            if name == "numpy.arange" and len(fa) == 1 and fa[0].op == "const" and isinstance(fa[0].a[0], int) and 0 <= fa[0].a[0] <= self.cfg.unroll:
                content = mk("call", "numpy.array", (mk("list", *[const(k) for k in range(fa[0].a[0])]),), ())
            if name in ("numpy.array",) and args and not isinstance(args[0], tuple):
                c = self.typeof(args[0])
                content = mk("call", name, (self.deep(fa[0]),) + fa[1:], fk)
            if name == "numpy.copy" and fa:
                content = fa[0]
            r = self.fresh("arr", node=e, content=content)
        elif name in ("copy.copy", "copy.deepcopy") and fa:
            c = self.typeof(args[0])
            r = self.fresh("obj" if c else "arr", cls=c, node=e, content=None)
            self.st.content[r] = mk("call", name, fa, ())
        else:
            r = mk("call", name, fa, fk)
        if ev is not None:
            ev.data["result"] = r
        return r


def ground(t):
    """A constant, or a tuple of constants: equal exactly when identical."""
    return t.op == "const" or t.op == "tuple" and all(ground(x) for x in t.a)


def intval(t):
    return t.op == "const" and isinstance(t.a[0], (int, float)) and not isinstance(t.a[0], bool)


def mask_of(k):
    """Known boolean mask, else None."""
    if k.op == "invert":
        m = mask_of(k.a[0])
        return None if m is None else [not x for x in m]
    if k.op == "call" and k.a[0] == "numpy.logical_not" and len(k.a[1]) == 1:
        m = mask_of(k.a[1][0])
        return None if m is None else [not x for x in m]
    l = plain(k)
    if l is not None and all(x.op == "const" and isinstance(x.a[0], bool) for x in l):
        return [x.a[0] for x in l]
    return None


def ints(v):
    """Values of a known list or set of integers, else None."""
    if v.op == "call" and v.a[0] == "set" and len(v.a[1]) == 1:
        v = v.a[1][0]
    l = plain(v)
    return [x.a[0] for x in l] if l is not None and all(intval(x) for x in l) else None


def setof(v):
    l = ints(v)
    return mk("call", "set", (mk("list", *[const(x) for x in sorted(set(l))]),), ()) if l is not None else None


def plain(v):
    """Elements of a known list or 1-d array, else None."""
    while v.op == "call" and v.a[0] in ("numpy.array", "numpy.asarray", "numpy.copy", "numpy.ravel", "numpy.asanyarray") and v.a[1] and not (len(v.a[1]) > 1):
        v = v.a[1][0]
    if v.op in ("list", "tuple") and not any(x.op == "star" for x in v.a):
        return list(v.a)
    if v.op == "call" and v.a[0] == "range" and v.a[1] and all(x.op == "const" and isinstance(x.a[0], int) for x in v.a[1]):
        r = range(*[x.a[0] for x in v.a[1]])
        return [const(k) for k in r] if len(r) <= 64 else None
    if v.op == "upd" and v.a[1].op == "const" and isinstance(v.a[1].a[0], int):
        l = plain(v.a[0])
        if l is not None and -len(l) <= v.a[1].a[0] < len(l):
            l[v.a[1].a[0]] = v.a[2]
            return l
    return None


CANON = {"math.sqrt": "numpy.sqrt", "math.exp": "numpy.exp", "math.log": "numpy.log", "math.sin": "numpy.sin", "math.cos": "numpy.cos",
         "math.pi": "numpy.pi", "math.floor": "numpy.floor", "math.fabs": "numpy.abs", "math.asin": "numpy.arcsin", "numpy.asin": "numpy.arcsin",
         "numpy.absolute": "numpy.abs", "numpy.fabs": "numpy.abs", "numpy.pow": "numpy.power", "numpy.remainder": "numpy.mod"}


def canonical(n):
    return CANON.get(n, n)


class _TryFrame(_Try):
    def __init__(self, depth, s, interp):
        _Try.__init__(self, depth, s.handlers)
        self.types = []
        for h in s.handlers:
            if h.type is None:
                self.types.append(None)
            else:
                ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                names = []
                for t in ts:
                    n = t.attr if isinstance(t, ast.Attribute) else (t.id if isinstance(t, ast.Name) else "?")
                    names.append(n)
                self.types.append(tuple(names))

    def catchall(self):
        return any(t is None or "Exception" in t or "BaseException" in t for t in self.types)

    def match(self, names):
        if names and names[0] in ("?", "$reraise"):
            return "yes" if any(t is None or "BaseException" in t or "Exception" in t for t in self.types) else "maybe"
        for t in self.types:
            if t is None or any(n in t for n in names):
                return "yes"
        return "no"

    def foreign(self):
        """Handles only exceptions which the interpreter and the libraries do not raise."""
        return all(t is not None and not any(n in BUILTIN_EXC or n == "?" for n in t) for t in self.types)

    def goes(self, names, hi):
        """Can an exception with class names reach handler hi (first match wins)?"""
        if names is None or names[0] in ("?", "$reraise"):
            return True
        for i, t in enumerate(self.types):
            if t is None or any(n in t for n in names):
                return i == hi
        return False


def keyname(key):
    if key[0] == "env":
        return "%s" % (key[2],)
    if key[0] == "attr":
        return "%s.%s" % (show(key[1], 3), key[2] if not isinstance(key[2], T) else show(key[2], 2))
    return "*%s" % show(key[1], 3)


def bvlevel(t):
    m = 0
    for x in subterms(t):
        if x.op == "bv":
            m = max(m, x.a[0])
    return m


def bindpos(t, L):
    """Close a loop body over its position variable."""
    pos = mk("pos", L)
    if not contains(t, pos):
        return mk("lam", 0, t)
    lvl = bvlevel(t) + 1
    return mk("lam", lvl, subst(t, {pos: mk("bv", lvl)}))


def unbind(m, k):
    lam = m.a[-1]
    if lam.a[0] == 0:
        return lam.a[1]
    return subst(lam.a[1], {mk("bv", lam.a[0]): k})


def add_sum(init, s):
    if init.op == "const" and init.a[0] in (0, 0.0) and not isinstance(init.a[0], bool):
        return s
    return mk("add", init, s)
