"""Loads the package's source and resolves names, classes and methods."""
import ast
import os


class Module(object):
    def __init__(self, name, path, tree, src):
        self.name, self.path, self.tree, self.src = name, path, tree, src
        self.defs = {}      # name -> ('func', FuncInfo)|('class', ClassInfo)|('import', dotted)|('from', mod, name)|('value', expr)
        self.main_lines = set()


class ClassInfo(object):
    def __init__(self, name, module, node):
        self.name, self.module, self.node = name, module, node
        self.qual = module.name + "." + name
        self.bases = []     # ClassInfo or dotted str
        self.methods = {}
        self.attrs = {}
        self.mro = None

    def find(self, name):
        for c in self.mro:
            if isinstance(c, ClassInfo) and name in c.methods:
                return c.methods[name]
        return None

    def find_after(self, cls, name):
        mro = list(self.mro)
        if cls in mro:
            mro = mro[mro.index(cls) + 1:]
        for c in mro:
            if isinstance(c, ClassInfo) and name in c.methods:
                return c.methods[name]
        return None

    def find_attr(self, name):
        for c in self.mro:
            if isinstance(c, ClassInfo) and name in c.attrs:
                return c.attrs[name], c
        return None

    def issub(self, other):
        """other: ClassInfo or bare/dotted external name."""
        for c in self.mro:
            if c is other:
                return True
            if isinstance(c, str) and isinstance(other, str) and c.split(".")[-1] == other.split(".")[-1]:
                return True
        return False

    def external_bases(self):
        return [c for c in self.mro if isinstance(c, str)]

    def __repr__(self):
        return "<class %s>" % self.qual


class FuncInfo(object):
    def __init__(self, name, module, node, cls=None):
        self.name, self.module, self.node, self.cls = name, module, node, cls
        self.qual = (cls.qual if cls else module.name) + "." + name
        self.static = False
        self.classmethod = False
        self.property = False
        for d in node.decorator_list if hasattr(node, "decorator_list") else []:
            s = ast.unparse(d)
            if s == "staticmethod":
                self.static = True
            elif s == "classmethod":
                self.classmethod = True
            elif s == "property":
                self.property = True

    @property
    def short(self):
        return (self.cls.name + "." if self.cls else self.module.name.split(".")[-1] + ".") + self.name

    def where(self, node=None):
        n = node if node is not None and hasattr(node, "lineno") else self.node
        return "%s:%s" % (self.module.relpath, n.lineno)

    def __repr__(self):
        return "<func %s>" % self.qual


class AnalysisBroken(Exception):
    """An anchor the rules are written against is gone: no verdict."""


class Project(object):
    def __init__(self, repo=None, pkgdir="src/diffpy/srmise", pkg="diffpy.srmise"):
        repo = repo or os.environ.get("VERIF_REPO", "/repo")
        self.repo = repo
        self.pkg = pkg
        self.modules = {}
        root = os.path.join(repo, pkgdir)
        for d, dirs, files in sorted(os.walk(root)):
            dirs[:] = sorted(x for x in dirs if x != "__pycache__")
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, root)
                name = pkg + "." + rel[:-3].replace(os.sep, ".")
                if name.endswith(".__init__"):
                    name = name[:-9]
                src = open(p, encoding="utf-8").read()
                tree = ast.parse(src, p)
                m = Module(name, p, tree, src)
                m.relpath = os.path.relpath(p, repo)
                m.is_pkg = f == "__init__.py"
                self.modules[name] = m
        if not self.modules:
            raise AnalysisBroken("no source found under %s" % root)
        for m in self.modules.values():
            self._collect(m)
        self.classes = {}
        for m in self.modules.values():
            for n, d in m.defs.items():
                if d[0] == "class":
                    self.classes.setdefault(n, d[1])
        for m in self.modules.values():
            for n, d in m.defs.items():
                if d[0] == "class":
                    self._bases(d[1])
        for m in self.modules.values():
            for n, d in m.defs.items():
                if d[0] == "class":
                    d[1].mro = self._mro(d[1])

    def add_source(self, name, path=None, src=None):
        """Load one more module (a specification) next to the package's own."""
        if src is None:
            src = open(path, encoding="utf-8").read()
        m = Module(name, path or name, ast.parse(src, path or name), src)
        m.relpath = os.path.basename(path) if path else name
        m.is_pkg = False
        m.spec = True
        self._collect(m)
        self.specs = getattr(self, "specs", {})
        self.specs[name] = m
        for n, d in m.defs.items():
            if d[0] == "class":
                self._bases(d[1])
                d[1].mro = self._mro(d[1])
        return m

    def _collect(self, m):
        def block(body):
            for s in body:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    m.defs[s.name] = ("func", FuncInfo(s.name, m, s))
                elif isinstance(s, ast.ClassDef):
                    m.defs[s.name] = ("class", self._class(s, m))
                elif isinstance(s, ast.Import):
                    for a in s.names:
                        if a.asname:
                            m.defs[a.asname] = ("import", a.name)
                        else:
                            m.defs[a.name.split(".")[0]] = ("import", a.name.split(".")[0])
                elif isinstance(s, ast.ImportFrom):
                    base = self._frombase(m, s)
                    for a in s.names:
                        m.defs[a.asname or a.name] = ("from", base, a.name)
                elif isinstance(s, (ast.Assign, ast.AnnAssign)):
                    ts = s.targets if isinstance(s, ast.Assign) else [s.target]
                    for t in ts:
                        if isinstance(t, ast.Name) and s.value is not None:
                            m.defs[t.id] = ("value", s.value)
                elif isinstance(s, ast.If):
                    if "__name__" in ast.unparse(s.test):
                        continue
                    block(s.body)
                    block(s.orelse)
                elif isinstance(s, ast.Try):
                    block(s.body)
                    for h in s.handlers:
                        block(h.body)
        block(m.tree.body)

    @staticmethod
    def _frombase(m, s):
        if s.level == 0:
            return s.module
        parts = m.name.split(".")
        if not m.is_pkg:
            parts = parts[:-1]
        parts = parts[:len(parts) - (s.level - 1)]
        return ".".join(parts + ([s.module] if s.module else []))

    def _class(self, node, m):
        c = ClassInfo(node.name, m, node)
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                c.methods[s.name] = FuncInfo(s.name, m, s, c)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        if isinstance(s.value, ast.Name) and s.value.id in c.methods:
                            c.methods[t.id] = c.methods[s.value.id]
                        else:
                            c.attrs[t.id] = s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                c.attrs[s.target.id] = s.value
        return c

    def _bases(self, c):
        for b in c.node.bases:
            r = self.resolve_expr(c.module, b)
            c.bases.append(r if isinstance(r, ClassInfo) else (r if isinstance(r, str) else ast.unparse(b)))

    def _mro(self, c, seen=()):
        out = [c]
        lists = []
        for b in c.bases:
            if isinstance(b, ClassInfo):
                if b in seen:
                    continue
                lists.append(self._mro(b, seen + (c,)))
            else:
                lists.append([b])
        # simple linearisation (good enough without diamonds)
        for l in lists:
            for x in l:
                if x in out:
                    out.remove(x)
                out.append(x)
        if "object" not in out:
            out.append("object")
        return out

    # -- name resolution ------------------------------------------------
    def lookup(self, module, name, depth=0):
        """-> FuncInfo | ClassInfo | Module | dotted external str | ('value', expr, module) | None"""
        d = module.defs.get(name)
        if d is None:
            return None
        return self._deref(module, d, depth)

    def _deref(self, module, d, depth=0):
        if depth > 8:
            return None
        if d[0] in ("func", "class"):
            return d[1]
        if d[0] == "import":
            return self.modules.get(d[1], d[1])
        if d[0] == "from":
            return self.frommod(d[1], d[2], depth)
        return ("value", d[1], module)

    def frommod(self, base, name, depth=0):
        full = "%s.%s" % (base, name)
        if base in self.modules or base in getattr(self, "specs", {}):
            m = self.modules.get(base) or self.specs[base]
            if name in m.defs:
                r = self._deref(m, m.defs[name], depth + 1)
                if r is not None:
                    return r
            if full in self.modules:
                return self.modules[full]
            return full
        if full in self.modules:
            return self.modules[full]
        return full

    def resolve_expr(self, module, e):
        if isinstance(e, ast.Name):
            return self.lookup(module, e.id) or e.id
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(module, e.value)
            if isinstance(b, Module):
                return self.frommod(b.name, e.attr)
            if isinstance(b, str):
                return b + "." + e.attr
        return None

    def cls(self, name):
        c = self.classes.get(name)
        if c is None:
            raise AnalysisBroken("class %s not found in the package" % name)
        return c

    def func(self, qual):
        """'Class.method' or 'module.function'."""
        a, b = qual.rsplit(".", 1)
        if a in self.classes:
            f = self.classes[a].find(b)
            if f is None:
                raise AnalysisBroken("method %s not found" % qual)
            return f
        m = self.modules.get(self.pkg + "." + a)
        if m and b in m.defs and m.defs[b][0] == "func":
            return m.defs[b][1]
        raise AnalysisBroken("function %s not found" % qual)

    def subclasses(self, c, strict=False):
        out = []
        for m in self.modules.values():
            for d in m.defs.values():
                if d[0] == "class" and d[1].issub(c) and not (strict and d[1] is c):
                    out.append(d[1])
        return out

    def all_functions(self, nested=False):
        for m in self.modules.values():
            for d in m.defs.values():
                if d[0] == "func":
                    yield d[1]
                elif d[0] == "class":
                    for f in d[1].methods.values():
                        if f.cls is d[1]:
                            yield f
