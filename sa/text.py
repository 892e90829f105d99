"""Known texts with holes.

A text that the analysed code builds from constants and from unknown values is
a constant string in which every written value is one reserved character, a
hole; equal holes are the same kind of writing of the same value.  Reading such
a text back (splitting, matching constant patterns, eval, float) is then folded
on the constants, and a hole reads as the value that was written.  Holes of
numbers are digits of other scripts, so patterns for numbers and words accept
them; other holes are private characters, which no pattern for words or digits
or blanks accepts.
"""
import ast
import re
import unicodedata

from .terms import *

_of = {}
_hole = {}
_digits = iter([chr(c) for c in range(128, 0x20000) if unicodedata.category(chr(c)) == "Nd"])
_private = iter(range(0xF0000, 0xFFFF0))
NUMERIC = "fd"


def hole(kind, t):
    """The character which stands for value t written as r(epr), s(tr), f(loat), d(ecimal integer)."""
    c = _of.get((kind, t))
    if c is None:
        try:
            c = next(_digits) if kind[0] in NUMERIC else chr(next(_private))
        except StopIteration:
            return None
        _of[(kind, t)] = c
        _hole[c] = (kind, t)
    return c


def holes(s):
    return [c for c in s if c in _hole]


def known(t):
    return t.op == "const" and isinstance(t.a[0], str)


def read(c, kind):
    """What int/float/eval make of the hole's text."""
    k, t = _hole[c]
    if k[0] == "f" and len(k) > 1:
        return mk("call", "rounded", (const(k[1:]), t), ())
    if k == "d" or kind == "int":
        return mk("call", "int", (t,), ()) if not (t.op == "const" and isinstance(t.a[0], int)) else t
    return t


def composed(v):
    """Perhaps a text put together from others, which one character cannot stand for."""
    if v.op in ("add", "mod", "fstr", "ite", "idx"):
        return any(known(x) or isinstance(x, T) and composed(x) for x in v.a)
    return v.op == "mcall" and v.a[0] in STRING_METHODS or v.op == "call" and v.a[0].rpartition(".")[0] == "str"


STRING_METHODS = ("join", "strip", "lstrip", "rstrip", "replace", "format", "lower", "upper", "title", "capitalize")
def numeric(m):
    """Kind of hole for a conversion specification: f with its precision, d, r or s."""
    c, prec = m.group(5), m.group(4)
    k = KIND.get(c, "s")
    if k != "f":
        return k
    n = 6 if prec is None else int(prec)
    if c in "fF":
        return "ff%d" % n
    n = n + 1 if c in "eE" else max(n, 1)
    return "f" if n >= 17 else "f%d" % n


SPEC = re.compile(r"%(?:\((\w+)\))?([-+ #0]*)(\d+)?(?:\.(\d+))?([diouxXeEfFgGcrsa%])")
KIND = dict([(c, "f") for c in "eEfFgG"] + [(c, "d") for c in "diouxX"] + [("r", "r"), ("a", "r"), ("s", "s")])


class Texts(object):
    """Part of the interpreter: folding on known texts (Config(text=True))."""

    def written(self, raw, kind):
        """Text of a value, or None."""
        v = self.val(raw)
        if v.op == "const" and not (isinstance(v.a[0], str) and holes(v.a[0]) and kind == "r"):
            return repr(v.a[0]) if kind == "r" else str(v.a[0])
        if kind in "rs" and v.op in ("list", "tuple") and self.kind.get(raw) != "arr":
            parts = [self.written(x, "r") for x in v.a]
            if None in parts:
                return None
            return "[%s]" % ", ".join(parts) if v.op == "list" else "(%s%s)" % (", ".join(parts), "," if len(parts) == 1 else "")
        if kind in "rs" and v.op == "dict" and all(isinstance(x, tuple) for x in v.a):
            parts = [(self.written(x, "r"), self.written(y, "r")) for x, y in v.a]
            if any(None in p for p in parts):
                return None
            return "{%s}" % ", ".join("%s: %s" % p for p in parts)
        if kind in "rs" and v.op == "slice":
            parts = [self.written(x, "r") for x in v.a]
            return None if None in parts else "slice(%s)" % ", ".join(parts)
        if kind in "rs" and v.op == "call" and v.a[0] in ("numpy.array", "numpy.asarray", "numpy.concatenate"):
            return hole("a", v)      # an array's text is not its value's
        if kind == "s" and composed(v):
            return None
        return hole(kind, v)

    def formatted(self, fmt, raw):
        v = self.val(raw)
        args = list(v.a) if v.op == "tuple" else None
        table = {k.a[0]: x for k, x in v.a if k.op == "const"} if v.op == "dict" else {}
        out, at, n = [], 0, 0
        for m in SPEC.finditer(fmt):
            if "%" in fmt[at:m.start()]:
                return None
            out.append(fmt[at:m.start()])
            at = m.end()
            key, flags, width, prec, c = m.groups()
            if c == "%":
                out.append("%")
                continue
            if key is not None:
                if key not in table:
                    return None
                x = table[key]
            elif args is None:
                if n:
                    return None
                x = raw
            elif n < len(args):
                x = args[n]
            else:
                return None
            if key is None:
                n += 1
            xv = self.val(x)
            if xv.op == "const" and KIND.get(c) in ("f", "d") or xv.op == "const" and not (isinstance(xv.a[0], str) and holes(xv.a[0])):
                try:
                    out.append((m.group(0) if key is None else "%" + m.group(0)[len(key) + 3:]) % (xv.a[0],))
                except Exception:
                    return None
                continue
            s = self.written(x, numeric(m))
            if s is None:
                return None
            out.append(s)
        if "%" in fmt[at:] or (args is not None and n != len(args)):
            return None
        return const("".join(out) + fmt[at:])

    def fstring(self, e):
        """f-string of known parts."""
        out = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                out.append(v.value)
                continue
            raw = self.eval(v.value)
            if self.st is None:
                return NONE
            spec = "" if v.format_spec is None else "".join(x.value for x in v.format_spec.values if isinstance(x, ast.Constant))
            m = SPEC.fullmatch("%" + spec) if spec else None
            kind = "r" if v.conversion in (114, 97) else numeric(m) if m else "s"
            s = self.written(raw, kind)
            if s is None:
                return mk("fstr", self.val(raw), const(self.seq))
            out.append(s)
        return const("".join(out))

    def failed(self, name, e):
        """A builtin exception certainly happens here."""
        from .interp import BUILTIN_EXC
        self.throw(tuple(BUILTIN_EXC[name]), e)
        return NONE

    def evaluate(self, s, e):
        s = s.strip()
        names = {}
        src = []
        for c in s:
            if c in _hole:
                n = "hole_%x_" % ord(c)
                names[n] = c
                src.append(n)
            else:
                src.append(c)
        try:
            node = ast.parse("".join(src), mode="eval").body
        except (SyntaxError, ValueError):
            return None if any(_hole[c][0] == "s" for c in names.values()) else self.failed("SyntaxError", e)

        class Put(ast.NodeTransformer):
            def visit_Name(self, n):
                if n.id in names:
                    return ast.copy_location(ast.Constant(read(names[n.id], "eval")), n)
                return n
        if any(x[0] == "r" for x in map(_hole.get, names.values())) and self.p.resolve_expr(self.stack[-1][0].module, ast.Name("np", ast.Load())) == "np":
            return self.failed("NameError", e)      # numbers are written np.float64(...)
        node = ast.fix_missing_locations(Put().visit(node))
        if any(x[0] in "a" for x in map(_hole.get, names.values())):
            return mk("call", "eval", (const(s),), ())
        return self.eval(node)

    def text_builtin(self, n, args, kw, e):
        """Folded builtin call, or None."""
        if kw or any(isinstance(a, tuple) for a in args):
            return None
        fa = self.flatargs(args)
        if n in ("repr", "str") and len(args) == 1:
            s = self.written(args[0], "r" if n == "repr" else "s")
            return None if s is None else const(s)
        if n in ("int", "float") and len(fa) == 1 and known(fa[0]):
            s = fa[0].a[0].strip()
            if len(s) == 1 and s in _hole:
                return read(s, n)
            if not holes(s):
                try:
                    return const(int(s) if n == "int" else float(s))
                except ValueError:
                    return self.failed("ValueError", e)
            return None
        if n == "eval" and fa and known(fa[0]):
            return self.evaluate(fa[0].a[0], e)
        if n in ("__import__", "importlib.import_module") and len(fa) == 1 and known(fa[0]) and not holes(fa[0].a[0]):
            return mk("module", fa[0].a[0]) if fa[0].a[0] in self.p.modules else self.failed("ImportError", e)
        return None

    def text_method(self, v, name, args, kw, e):
        if v.op == "const" and isinstance(v.a[0], re.Match):
            fa = self.flatargs(args)
            if name in ("start", "end", "group", "groups", "span", "groupdict") and not kw and all(x.op == "const" for x in fa):
                try:
                    r = getattr(v.a[0], name)(*[x.a[0] for x in fa])
                except IndexError:
                    return self.failed("IndexError", e)
                return self.lifted(r, e)
            return None
        if not known(v):
            return None
        s = v.a[0]
        fa = self.flatargs(args)
        if name == "join" and len(args) == 1 and not isinstance(args[0], tuple):
            items = self.items_of(args[0])
            if items is not None and all(known(self.val(x)) for x in items):
                return const(s.join(self.val(x).a[0] for x in items))
            return None
        if name == "format":
            return None
        if name in ("split", "rsplit", "splitlines", "strip", "lstrip", "rstrip", "partition", "rpartition", "startswith", "endswith", "find", "rfind", "index", "replace", "upper", "lower", "count", "encode") \
                and all(x.op == "const" or x.op == "tuple" for x in fa):
            conv = lambda x: tuple(y.a[0] for y in x.a) if x.op == "tuple" else x.a[0]
            try:
                r = getattr(s, name)(*[conv(x) for x in fa], **{k: self.val(x).a[0] for k, x in kw.items()})
            except ValueError:
                return self.failed("ValueError", e)
            except Exception:
                return None
            return None if isinstance(r, bytes) else self.lifted(r, e)
        return None

    def lifted(self, r, e):
        if isinstance(r, list):
            return self.fresh("list", node=e, content=mk("list", *[self.lifted(x, e) for x in r]))
        if isinstance(r, tuple):
            return mk("tuple", *[self.lifted(x, e) for x in r])
        return const(r)

    def text_external(self, name, args, kw, e):
        if name == "importlib.import_module":
            return self.text_builtin(name, args, kw, e)
        if not name.startswith("re.") or any(isinstance(a, tuple) for a in args) or "**" in kw:
            return None
        fn = name[3:]
        fa = [self.flagged(x) for x in self.flatargs(args)]
        fk = {k: self.flagged(self.val(x)) for k, x in kw.items()}
        if fn not in ("search", "match", "fullmatch", "split", "sub", "findall", "compile", "escape") or None in fa or None in fk.values():
            return None
        if fn == "sub" and not isinstance(fa[1], str):
            return None
        try:
            r = getattr(re, fn)(*fa, **fk)
        except Exception:
            return None
        return self.lifted(r, e)

    def text_pattern(self, v, name, args, kw, e):
        """Method of a compiled pattern."""
        fa = [self.flagged(x) for x in self.flatargs(args)]
        if name not in ("search", "match", "fullmatch", "split", "sub", "findall") or None in fa or kw:
            return None
        try:
            return self.lifted(getattr(v.a[0], name)(*fa), e)
        except Exception:
            return None

    def flagged(self, x):
        if x.op == "const" and isinstance(x.a[0], (str, int, re.Pattern)):
            return x.a[0]
        if x.op == "glob" and x.a[0].startswith("re.") and isinstance(getattr(re, x.a[0][3:], None), re.RegexFlag):
            return getattr(re, x.a[0][3:])
        if x.op == "bitor":
            a, b = self.flagged(x.a[0]), self.flagged(x.a[1])
            return a | b if a is not None and b is not None else None
        return None


def comparable(p, q):
    """Are two known texts certainly equal or certainly different?"""
    return p is q or p == q or not (isinstance(p, str) and holes(p) or isinstance(q, str) and holes(q))
