"""Frame of a check: obligations, verdicts, evidence, replay."""
import ast
import ctypes
import json
import os
import sys
import threading
import time
import traceback

from .equiv import Equiv, showcase
from .interp import Config, Interp
from .project import AnalysisBroken, FuncInfo, Project
from .terms import FALSE, NONE, TRUE, T, conj, const, contains, ite, mk, negate, rewrite, show, subst, subterms, truth

PARAMS = json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "specs", "params.json")))
sys.setrecursionlimit(30000)
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


GROUP, TOTAL = 150, 600      # seconds for one group of obligations and for a check; what takes longer stays undecided


class OutOfTime(BaseException):
    pass


def sym(n):
    return mk("sym", n)


SELF = sym("self")


def reached(xs):
    """Term: one of these exits or events is reached."""
    out = FALSE
    for x in xs:
        out = negate(conj(negate(out), negate(conj(*x.guard))))
    return ite(out, TRUE, FALSE)


class Run(object):
    """One analysed function: outcome, results and effects."""

    def __init__(self, interp, result, func):
        self.i, self.r, self.f = interp, result, func

    @property
    def value(self):
        """The returned value, joined over the normal exits."""
        v, st = self.r.final()
        if st is None:
            return mk("never")
        return v

    @property
    def outcome(self):
        """The returned value or the class of the exception raised, by case."""
        out = None
        for e in reversed(self.r.exits):
            if e.kind == "return":
                v = self.i.deep(e.value, e.state)
            else:
                v = mk("raised", self.excname(e))
            out = v if out is None else ite(conj(*e.guard), v, out)
        return out if out is not None else mk("never")

    @staticmethod
    def excname(e):
        x = e.exc
        if isinstance(x, (list, tuple, set, frozenset)):
            x = list(x)[0] if x else "Exception"
        return x if isinstance(x, str) else "Exception"

    def attr(self, name, obj=SELF, st=None):
        """Final content of an attribute (joined over the normal exits)."""
        if st is None:
            st = self.r.final()[1]
        if st is None:
            return mk("never")
        v = st.attrs.get((obj, name))
        if v is None:
            return mk("attr", obj, name)
        return self.i.deep(v, st)

    def content(self, term, st=None):
        if st is None:
            st = self.r.final()[1]
        return self.i.deep(term, st)


class Heap(object):
    """Known objects to start an analysis from."""

    def __init__(self, project):
        self.p, self.attrs, self.contents, self.types = project, {}, {}, {}

    def obj(self, name, cls=None, **attrs):
        t = sym(name)
        if cls is not None:
            self.types[t] = self.p.cls(cls) if isinstance(cls, str) else cls
        for k, v in attrs.items():
            self.attrs[(t, k)] = v
        return t

    def list(self, name, items, cls=None):
        t = self.obj(name, cls)
        self.contents[t] = mk("list", *items)
        return t

    def arr(self, name, items):
        t = self.obj(name)
        self.contents[t] = mk("call", "numpy.array", (mk("list", *items),), ())
        return t


class Check(object):
    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.p = Project()
        self.obs = []
        self.broken = []
        self.functions = set()
        self.known = load_known(pid)
        self.notes = []
        self.cache = {}
        self.keep = []

    # -- specifications ----------------------------------------------------
    def spec(self, name):
        m = getattr(self.p, "specs", {}).get(name)
        if m is None:
            m = self.p.add_source(name, os.path.join(ROOT, "specs", name + ".py"))
        return m

    def specfunc(self, mod, name):
        d = self.spec(mod).defs.get(name)
        if d is None or d[0] != "func":
            raise AnalysisBroken("specification %s.%s missing" % (mod, name))
        return d[1]

    # -- analysis -------------------------------------------------------------
    def run(self, func, cls=None, config=None, args=None, attrs=None, content=None, guard=(), types=None, defaults=False, heap=None):
        """Analyse a function (name or FuncInfo) as a method of cls."""
        if isinstance(func, str):
            func = self.p.func(func)
        if not getattr(func.module, "spec", False):
            self.functions.add(func.short)
        args = self.byposition(func, dict(args or {}), defaults)
        i = Interp(self.p, config or Config())
        if cls is not None:
            i.classof[SELF] = self.p.cls(cls) if isinstance(cls, str) else cls
        if heap is not None:
            attrs = dict(heap.attrs, **{}) | dict(attrs or {})
            content = dict(heap.contents) | dict(content or {})
            types = dict(heap.types) | dict(types or {})
        if heap is not None:
            i.objects = {k[0] for k in heap.attrs} | set(heap.contents) | set(heap.types)
        for t, c in (types or {}).items():
            i.classof[t] = self.p.cls(c) if isinstance(c, str) else c
        r = i.run(func, args=args, attrs=attrs, content=content, guard=guard)
        for e in r.events:
            if not getattr(e.fn.module, "spec", False):
                self.functions.add(e.fn.short)
        return Run(i, r, func)

    def byposition(self, func, args, defaults):
        """Bind parameters by the name the rules know them under, whatever they are called now."""
        a = func.node.args
        now = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + ([a.vararg.arg] if a.vararg else []) + ([a.kwarg.arg] if a.kwarg else [])
        dflt = dict(zip([x.arg for x in (a.posonlyargs + a.args)][::-1], a.defaults[::-1]))
        dflt.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        if getattr(func.module, "spec", False):
            then = now
        else:
            then = [x.lstrip("*") for x in PARAMS.get(func.module.name.replace("diffpy.srmise", "") + ":" + func.short, now)]
            if len(then) > len(now):
                then = now
        out = {}
        left = set(args)
        for k, n in enumerate(now):
            t = then[k] if k < len(then) and not set(now) >= set(then) else n
            if t in args:
                out[n] = args[t]
                left.discard(t)
            elif defaults and n in dflt:
                out[n] = Interp(self.p, Config()).const_expr(dflt[n], func.module, func, n)
            else:
                out[n] = sym(t)
        if left:
            raise ValueError("%s takes no parameter %s" % (func.short, sorted(left)))
        if now and func.cls and not func.static:
            out.pop(now[0], None)
        return out

    def term(self, text, names=(), attrs=None, pure=(), **bind):
        """Value term of a Python expression over symbols (or given terms)."""
        tree = ast.parse(text.strip(), mode="eval")
        free = sorted({n.id for n in ast.walk(tree) if isinstance(n, ast.Name)} - {"np", "len", "min", "max", "abs", "sum", "any", "all", "range", "int", "float"})
        src = "import numpy as np\ndef f(%s):\n    return %s\n" % (", ".join(free), text.strip().replace("\n", " "))
        key = "$expr%d" % len(getattr(self.p, "specs", {}))
        m = self.p.add_source(key, src=src)
        i = Interp(self.p, Config(pure=pure))
        r = i.run(m.defs["f"][1], args=dict(bind), attrs=attrs)
        return r.final()[0]

    # -- verdicts ------------------------------------------------------------------
    def add(self, name, where, verdict, detail=""):
        """verdict: 'ok' | 'bad' | '?'"""
        self.obs.append((name, where, verdict, detail))
        if os.environ.get("VERIF_DEBUG") and verdict != "ok":
            self.shown = getattr(self, "shown", 0) + 1
            if self.shown <= int(os.environ.get("VERIF_DEBUG")):
                print("   ", verdict, name, where, detail[:int(os.environ.get("VERIF_WIDE", "500"))], file=sys.stderr)

    def equal(self, name, where, code, spec, facts=(), equiv=None):
        e = equiv or Equiv()
        key = (id(e), code, spec, tuple(facts))
        self.keep.append(e)
        if key not in self.cache:
            try:
                self.cache[key] = e.verdict(code, spec, facts)
            except RecursionError:
                self.cache[key] = ("?", [], None)
        v, cases, first = self.cache[key]
        if v == "eq":
            self.add(name, where, "ok", "%d case(s)" % len(cases))
        elif v == "ne":
            self.add(name, where, "bad", "when %s: the code yields %s where the rule requires %s" % (showcase(first[0]), show(first[2], 12), show(first[3], 12)))
        else:
            self.add(name, where, "?", first and "undecided when %s: %s ~ %s foreign %s" % (showcase(first[0]), show(first[2], 8), show(first[3], 8), sorted(e.foreign(first[2], first[3]))) or "undecided")
        return v

    def never(self, name, where, exits, facts=(), equiv=None):
        """None of these exits can be reached."""
        exits = list(exits)
        if not exits:
            self.add(name, where, "ok")
            return "eq"
        return self.equal(name, exits[0].where if where is None else where, reached(exits), FALSE, facts, equiv)

    group = GROUP

    def attempt(self, name, fn, *a, **k):
        """Run one group of obligations; an analysis failure in it is no verdict on the others."""
        if time.time() - self.t0 > TOTAL:
            self.add(name, "-", "?", "no time left")
            return None
        me, over = threading.get_ident(), []

        def stop():
            if not over:
                ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(me), ctypes.py_object(OutOfTime))
        watch = threading.Timer(min(self.group, max(1, self.t0 + TOTAL + 30 - time.time())), stop)
        watch.daemon = True
        watch.start()
        try:
            try:
                return fn(*a, **k)
            finally:
                over.append(1)
                watch.cancel()
        except AnalysisBroken as e:
            self.broken.append("%s: %s" % (name, e))
        except OutOfTime:
            self.add(name, "-", "?", "out of time")
        except Exception as e:       # an unsupported construct: undecided
            if os.environ.get("VERIF_DEBUG"):
                if not getattr(self, "traced", 0):
                    traceback.print_exc()
                self.traced = 1
            self.add(name, "-", "?", "analysis failed: %s: %s" % (type(e).__name__, e))
        return None

    # -- end -----------------------------------------------------------------------------
    def finish(self, explanation, assumptions=(), minimum=1, level="other", extra=None):
        bad = [o for o in self.obs if o[2] == "bad"]
        unk = [o for o in self.obs if o[2] == "?"]
        ok = [o for o in self.obs if o[2] == "ok"]
        knownhit, viol = [], []
        for o in bad:
            k = next((x for x in self.known if x in o[0]), None)
            (knownhit if k else viol).append(o)
        evid = os.environ.get("VERIF_EVID") or os.path.join(ROOT, "evidence")
        os.makedirs(evid, exist_ok=True)
        cov = {"explanation": explanation, "obligations": len(self.obs), "discharged": len(ok), "undecided": len(unk),
               "functions_analysed": len(self.functions), "functions": sorted(self.functions),
               "samples": [{"obligation": o[0], "where": o[1], "verdict": {"ok": "holds", "bad": "violated", "?": "undecided"}[o[2]],
                            "detail": o[3][:400]} for o in (bad + unk + ok)[:400]],
               "modules_parsed": len(self.p.modules)}
        cov.update(extra or {})
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": list(assumptions), "wall_s": round(time.time() - self.t0, 2), "violations": len(viol)}
        if self.broken:
            cov["broken"] = self.broken
        path = os.path.join(evid, self.pid + ".json")
        with open(path, "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
        print("%s: %d obligations, %d hold, %d undecided, %d violated; %d functions analysed; %.1f s" % (
            self.pid, len(self.obs), len(ok), len(unk), len(bad), len(self.functions), time.time() - self.t0))
        for o in knownhit:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, o[0]))
        if viol:
            rp = os.path.join(evid, self.pid + ".replay.txt")
            with open(rp, "w") as f:
                for o in viol:
                    f.write("rule: %s\nwhere: %s\n%s\n\n" % (o[0], o[1], o[3]))
            for o in viol[:20]:
                print("  %s: %s: %s" % (o[1], o[0], o[3][:600]))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        for b in self.broken:
            print("analysis broken: %s" % b)
        if self.broken or len(ok) < minimum:
            print("no verdict: %d obligation(s) decided, at least %d expected" % (len(ok), minimum))
            return 2
        return 0


def instance(c, cls, **ctor):
    """Attributes of an object of a function class after construction."""
    r = c.run(cls + ".__init__", cls=cls, args=ctor)
    st = r.r.final()[1]
    if st is None:
        raise AnalysisBroken("%s cannot be constructed" % cls)
    return {k: r.i.deep(v, st) for k, v in st.attrs.items() if k[0] is SELF}


def load_known(pid):
    out = []
    path = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known: property=%s " % pid):
                out.append(line.split(" ", 2)[2].split(" | ")[0].strip())
    return out


def derivative(e, t, p):
    """Term of the exact partial derivative of the value term t with respect to the atom p (None if not expressible)."""
    import sympy as sp
    from .equiv import num
    from .terms import contains
    t = e.prep(t)
    if t.op == "ite":
        a, b = derivative(e, t.a[1], p), derivative(e, t.a[2], p)
        return None if a is None or b is None else ite(t.a[0], a, b)
    if t.op == "upd":
        a, b = derivative(e, t.a[0], p), derivative(e, t.a[2], p)
        return None if a is None or b is None else mk("upd", a, t.a[1], b)
    if t.op == "call" and t.a[0] in ("numpy.zeros", "numpy.ones"):
        return mk("call", "numpy.zeros", t.a[1], ())
    g = e.pending(t)
    if g is not None:            # a gate below arithmetic: one derivative per branch
        def branch(v):
            return rewrite(t, lambda y: y.a[1 if v else 2] if y.op == "ite" and y.a[0] is g else None)
        a, b = derivative(e, branch(True), p), derivative(e, branch(False), p)
        return None if a is None or b is None else ite(g, a, b)
    x = e.sym(t)
    ps = e.atom(p)
    for s in x.free_symbols:
        u = e.symterm[s]
        if u.op == "idx" and u.a[1].op == "slice" and not contains(u.a[0], lambda y: y is p):
            continue     # which points are in the domain: constant away from its boundary
        if u is not p and contains(u, lambda y: y is p):
            return None
    steps = {u: sp.Dummy(real=True) for u in x.atoms(sp.floor, sp.ceiling, sp.Mod)}      # constant between their jumps
    d = sp.diff(x.xreplace(steps), ps).xreplace({v: k for k, v in steps.items()})
    if d.has(sp.Derivative) or d.has(sp.Subs):
        return None
    return e.expr(d)
