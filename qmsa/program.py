"""
Loader and name resolution for the analysed tree: every module of the package is
parsed from the working tree on every run, and imports (including re-exports and
relative imports) are resolved to the defining module.
"""

import ast
import copy
import os


class AnalysisBroken(Exception):
    """The analysis cannot be carried out (public anchor vanished, parse error)."""


class Func:
    def __init__(self, mod, node, qual, cls=None, env=None):
        self.mod = mod
        self.node = node
        self.qual = qual
        self.cls = cls
        self.env = env  # enclosing frame env (closures)
        self.decos = []
        self.kind = "func"
        for d in getattr(node, "decorator_list", []):
            n = _dotted(d.func if isinstance(d, ast.Call) else d)
            self.decos.append(n)
        if "staticmethod" in self.decos:
            self.kind = "static"
        elif "classmethod" in self.decos:
            self.kind = "class"
        elif "property" in self.decos or "cached_property" in self.decos or any(
            d and d.endswith("cached_property") for d in self.decos
        ):
            self.kind = "property"
        elif any(d and d.endswith(".setter") for d in self.decos):
            self.kind = "setter"
        self.is_gen = any(
            isinstance(n, (ast.Yield, ast.YieldFrom))
            for n in _own_nodes(node)
        )

    @property
    def file(self):
        return self.mod.rel

    def __repr__(self):
        return "<Func %s>" % self.qual


def _own_nodes(fn):
    """nodes of fn excluding nested function bodies"""
    body = fn.body if isinstance(fn.body, list) else [fn.body]
    stack = list(body)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))


def _dotted(n):
    if isinstance(n, ast.Name):
        return n.id
    if isinstance(n, ast.Attribute):
        b = _dotted(n.value)
        return None if b is None else b + "." + n.attr
    return None


class Class:
    def __init__(self, mod, node):
        self.mod = mod
        self.node = node
        self.name = node.name
        self.qual = mod.name + "." + node.name
        self.methods = {}
        self.setters = {}
        self.attrs = {}
        self.bases = node.bases
        for s in node.body:
            if isinstance(s, ast.FunctionDef):
                f = Func(mod, s, self.qual + "." + s.name, cls=self)
                if f.kind == "setter":
                    self.setters[s.name] = f
                else:
                    self.methods[s.name] = f
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = s.value
                        self._property(t.id, s.value)
            elif isinstance(s, ast.AnnAssign) and s.value is not None:
                if isinstance(s.target, ast.Name):
                    self.attrs[s.target.id] = s.value

    def _property(self, name, v):
        """name = property(getter[, setter])"""
        if not (isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "property"):
            return
        kw = {k.arg: k.value for k in v.keywords}
        g = v.args[0] if v.args else kw.get("fget")
        st = v.args[1] if len(v.args) > 1 else kw.get("fset")
        for fn, table, kind in ((g, self.methods, "property"), (st, self.setters, "setter")):
            if isinstance(fn, ast.Name) and fn.id in self.methods:
                f = copy.copy(self.methods[fn.id])
                f.kind = kind
                table[name] = f
                self.attrs.pop(name, None)

    def __repr__(self):
        return "<Class %s>" % self.qual


class Module:
    def __init__(self, prog, name, path, rel, is_pkg):
        self.prog = prog
        self.name = name
        self.path = path
        self.rel = rel
        self.is_pkg = is_pkg
        with open(path, encoding="utf-8") as f:
            self.src = f.read()
        try:
            self.tree = ast.parse(self.src, filename=path)
        except SyntaxError as e:
            raise AnalysisBroken("cannot parse %s: %s" % (rel, e))
        self.funcs = {}
        self.classes = {}
        self.imports = {}  # local name -> dotted target
        self.assigns = {}  # name -> value expr (last one)
        self._scan(self.tree.body)

    def _scan(self, body):
        for s in body:
            if isinstance(s, ast.FunctionDef):
                self.funcs[s.name] = Func(self, s, self.name + "." + s.name)
            elif isinstance(s, ast.ClassDef):
                self.classes[s.name] = Class(self, s)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.assigns[t.id] = s.value
                    elif isinstance(t, ast.Tuple) and isinstance(s.value, ast.Tuple):
                        for a, b in zip(t.elts, s.value.elts):
                            if isinstance(a, ast.Name):
                                self.assigns[a.id] = b
            elif isinstance(s, ast.AnnAssign):
                if isinstance(s.target, ast.Name) and s.value is not None:
                    self.assigns[s.target.id] = s.value
            elif isinstance(s, ast.Import):
                self._imp(s)
            elif isinstance(s, ast.ImportFrom):
                self._imp(s)
            elif isinstance(s, (ast.If, ast.Try)):
                self._scan(s.body)
                self._scan(s.orelse)
                if isinstance(s, ast.Try):
                    for h in s.handlers:
                        self._scan(h.body)

    def import_bindings(self, s):
        out = {}
        if isinstance(s, ast.Import):
            for a in s.names:
                if a.asname:
                    out[a.asname] = a.name
                else:
                    top = a.name.split(".")[0]
                    out[top] = top
        else:
            if s.level:
                base = self.name.split(".")
                drop = s.level - (1 if self.is_pkg else 0)
                if drop:
                    base = base[:-drop]
                b = ".".join(base + ([s.module] if s.module else []))
            else:
                b = s.module
            for a in s.names:
                out[a.asname or a.name] = b + "." + a.name
        return out

    def _imp(self, s):
        self.imports.update(self.import_bindings(s))


class Program:
    def __init__(self, root, pkg="quakemigrate"):
        self.root = root
        self.pkg = pkg
        self.modules = {}
        top = os.path.join(root, pkg)
        if not os.path.isdir(top):
            raise AnalysisBroken("package directory %s not found" % top)
        for d, dirs, files in os.walk(top):
            dirs[:] = sorted(x for x in dirs if x != "__pycache__")
            for fn in sorted(files):
                if not fn.endswith(".py"):
                    continue
                p = os.path.join(d, fn)
                rel = os.path.relpath(p, root)
                parts = rel[:-3].split(os.sep)
                is_pkg = parts[-1] == "__init__"
                if is_pkg:
                    parts = parts[:-1]
                name = ".".join(parts)
                self.modules[name] = Module(self, name, p, rel, is_pkg)

    def resolve(self, dotted, depth=0):
        """dotted name -> ('mod', Module) | ('func', Func) | ('class', Class)
        | ('assign', Module, name) | ('ext', dotted)"""
        if depth > 20:
            return ("ext", dotted)
        if dotted in self.modules:
            return ("mod", self.modules[dotted])
        if "." in dotted:
            head, tail = dotted.rsplit(".", 1)
            if dotted.split(".")[0] == self.pkg:
                r = self.resolve(head, depth + 1)
                if r[0] == "mod":
                    return self.member(r[1], tail, depth + 1)
                if r[0] == "class":
                    return ("classattr", r[1], tail)
        return ("ext", dotted)

    def member(self, mod, name, depth=0):
        if name in mod.funcs:
            return ("func", mod.funcs[name])
        if name in mod.classes:
            return ("class", mod.classes[name])
        if name in mod.assigns:
            return ("assign", mod, name)
        if name in mod.imports:
            return self.resolve(mod.imports[name], depth + 1)
        if mod.name + "." + name in self.modules:
            return ("mod", self.modules[mod.name + "." + name])
        return ("ext", mod.name + "." + name)

    def cls(self, qual):
        r = self.resolve(qual)
        if r[0] != "class":
            raise AnalysisBroken("public class %s not found" % qual)
        return r[1]

    def func(self, qual):
        """public function or Class.method (Class.property.setter), by dotted name"""
        if qual.endswith(".setter"):
            r = self.resolve(qual[: -len(".setter")].rpartition(".")[0])
            f = self.find_setter(r[1], qual.split(".")[-2]) if r[0] == "class" else None
            if f is None:
                raise AnalysisBroken("public property setter %s not found" % qual)
            return f
        r = self.resolve(qual)
        if r[0] == "func":
            return r[1]
        if r[0] == "classattr":
            f = self.find_method(r[1], r[2])
            if f is not None:
                return f
        raise AnalysisBroken("public function %s not found" % qual)

    def base_classes(self, c):
        out = []
        for b in c.bases:
            d = _dotted(b)
            if d is None:
                continue
            r = self.lookup_in_module(c.mod, d)
            if r[0] == "class":
                out.append(r[1])
            else:
                out.append(r[1] if r[0] == "ext" else d)
        return out

    def mro(self, c):
        out = [c]
        for b in self.base_classes(c):
            if isinstance(b, Class):
                for x in self.mro(b):
                    if x not in out:
                        out.append(x)
            elif b not in out:
                out.append(b)
        return out

    def lookup_in_module(self, mod, dotted):
        head, *rest = dotted.split(".")
        r = self.member(mod, head)
        if r[0] == "ext" and head not in mod.imports:
            r = ("ext", head)
        for x in rest:
            if r[0] == "mod":
                r = self.member(r[1], x)
            elif r[0] == "class":
                r = ("classattr", r[1], x)
            elif r[0] == "ext":
                r = ("ext", r[1] + "." + x)
            else:
                return ("ext", dotted)
        return r

    def find_method(self, c, name):
        for k in self.mro(c):
            if isinstance(k, Class) and name in k.methods:
                return k.methods[name]
        return None

    def find_setter(self, c, name):
        for k in self.mro(c):
            if isinstance(k, Class) and name in k.setters:
                return k.setters[name]
        return None

    def find_attr(self, c, name):
        for k in self.mro(c):
            if isinstance(k, Class) and name in k.attrs:
                return k, k.attrs[name]
        return None

    def is_exception(self, c):
        for k in self.mro(c):
            if isinstance(k, str) and (
                k.endswith("Exception") or k.endswith("Error") or k.endswith("Warning")
            ):
                return True
        return False

    def n_functions(self):
        n = 0
        for m in self.modules.values():
            n += len(m.funcs) + sum(
                len(c.methods) + len(c.setters) for c in m.classes.values()
            )
        return n
