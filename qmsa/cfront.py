"""
Front end for the native kernels: the C sources are parsed by clang (AST dump of the
current working tree, nothing is compiled or run) and each function is translated to
an equivalent Python `ast.FunctionDef`, so that the wrappers and the kernels they
call are analysed as one program. Pointers become (array, offset) pairs, a pointer to
a structure becomes one variable per field.
"""

import ast
import json
import keyword
import os
import re
import subprocess

from .program import AnalysisBroken, Func, Module

WIDTH = {
    "char": 8, "short": 16, "int": 32, "long": 64, "long long": 64, "int32_t": 32,
    "int64_t": 64, "unsigned int": 32, "unsigned long": 64, "size_t": 64, "uint32_t": 32,
    "uint64_t": 64, "ptrdiff_t": 64, "ssize_t": 64, "int16_t": 16, "int8_t": 8, "uint8_t": 8,
    "uint16_t": 16, "unsigned char": 8, "signed char": 8, "_Bool": 8, "bool": 8,
    "npy_int64": 64, "npy_int32": 32,
}
UNSIGNED = ("unsigned", "uint", "size_t")
MATH = {"exp": "exp", "log": "log", "sqrt": "sqrt", "pow": "power", "log10": "log10", "floor": "floor", "ceil": "ceil"}


class Unsupported(Exception):
    pass


def ctype(n):
    t = n.get("type", {})
    q = t.get("desugaredQualType") if t.get("qualType", "").startswith("__typeof") else t.get("qualType", "")
    return q or ""


def plain(q):
    return re.sub(r"\s+", " ", re.sub(r"\b(const|volatile|restrict|register|__restrict|__restrict__)\b", "", q)).strip()


def is_ptr(q):
    return plain(q).endswith("*") or plain(q).endswith("]")


def elem(q):
    q = plain(q)
    return q[:-1].strip() if q.endswith("*") else re.sub(r"\[.*\]$", "", q).strip()


def width(q):
    return WIDTH.get(plain(q))


def is_int(q):
    return plain(q) in WIDTH


def is_unsigned(q):
    return plain(q).startswith(UNSIGNED)


class CFunc:
    """a C function: prototype facts and the translated body"""

    def __init__(self, unit, node):
        self.unit = unit
        self.node = node
        self.name = node["name"]
        self.params = [(p.get("name", "_%d" % i), ctype(p)) for i, p in enumerate(node.get("inner", [])) if p["kind"] == "ParmVarDecl"]
        q = node["type"]["qualType"]
        self.ret = q[: q.index("(")].strip()
        self.static = node.get("storageClass") == "static"
        self.body = next((x for x in node.get("inner", []) if x["kind"] == "CompoundStmt"), None)
        self.regions = []  # OpenMP directives
        self.notes = []  # (line, text) arithmetic remarks
        self.func = None

    @property
    def line(self):
        return self.unit.line(self.node.get("loc", {}))


class Unit:
    """one C source file"""

    def __init__(self, path, rel, copts=()):
        self.path = path
        self.rel = rel
        self.src = open(path, encoding="utf-8", errors="replace").read()
        self.raw = self.src.encode("utf-8", "replace")
        d = os.path.dirname(path)
        r = subprocess.run(
            ["clang", "-fopenmp", "-fsyntax-only", "-I", d, "-Xclang", "-ast-dump=json", path],
            capture_output=True, text=True, timeout=120)
        if r.returncode != 0 or not r.stdout:
            raise AnalysisBroken("clang cannot parse %s: %s" % (rel, r.stderr.strip().split("\n")[0][:160]))
        self.tree = json.loads(r.stdout)
        self.funcs = {}
        self.protos = {}
        self.structs = {}
        self.globals = {}
        self.pending = None
        for n in self.tree.get("inner", []):
            k = n["kind"]
            if k == "RecordDecl":
                f = [(x["name"], ctype(x)) for x in n.get("inner", []) if x["kind"] == "FieldDecl"]
                if f:
                    self.pending = f
                    if n.get("name"):
                        self.structs["struct " + n["name"]] = f
            elif k == "TypedefDecl":
                q = n["type"]["qualType"]
                if q.startswith("struct ") and self.pending and not q.startswith("struct __") :
                    self.structs[n["name"]] = self.structs.get(q, self.pending)
                    self.structs[q] = self.structs[n["name"]]
                elif self.pending and q == n["name"]:
                    self.structs[n["name"]] = self.pending
            elif k == "FunctionDecl":
                if self.here(n):
                    f = CFunc(self, n)
                    if f.body is not None:
                        self.funcs[f.name] = f
                if not n.get("isImplicit"):
                    self.protos.setdefault(n["name"], []).append(n)
            elif k == "VarDecl" and self.here(n):
                self.globals[n["name"]] = n

    def _off(self, loc):
        if "expansionLoc" in loc:
            loc = loc["expansionLoc"]
        return loc.get("offset")

    def here(self, n):
        """is this declaration written in this file (not in a header)?"""
        o = self._off(n.get("loc", {}))
        nm = n.get("name", "").encode()
        return o is not None and self.raw[o:o + len(nm)] == nm

    def line(self, loc):
        o = self._off(loc)
        return 0 if o is None else self.raw[:o].count(b"\n") + 1

    def nline(self, n):
        return self.line(n.get("range", {}).get("begin", {}))

    def text(self, n):
        r = n.get("range", {})
        a, b = self._off(r.get("begin", {})), self._off(r.get("end", {}))
        if a is None or b is None:
            return ""
        b += r["end"].get("tokLen", r["end"].get("expansionLoc", {}).get("tokLen", 1))
        return self.raw[a:b].decode("utf-8", "replace")


def clauses(text):
    """the clauses of an OpenMP directive, from its source text"""
    t = re.sub(r"\\\s*\n", " ", text)
    t = re.sub(r"^\s*#?\s*pragma\s+omp\s+", "", t.strip())
    out, name, pos = {}, [], 0
    for m in re.finditer(r"([A-Za-z_]+)\s*(\(([^()]*(\([^()]*\)[^()]*)*)\))?", t):
        w, arg = m.group(1), m.group(3)
        if arg is None:
            name.append(w)
        else:
            out.setdefault(w, []).append(arg.strip())
    return set(name), out


def strip(n):
    while n["kind"] in ("ParenExpr", "ImplicitCastExpr", "CStyleCastExpr", "ConstantExpr", "ExprWithCleanups", "CXXStaticCastExpr", "FullExpr"):
        n = n["inner"][-1]
    return n


def unparen(n):
    while n["kind"] in ("ParenExpr", "ConstantExpr"):
        n = n["inner"][-1]
    return n


RESERVED = set(keyword.kwlist) | {"int", "max", "min", "abs", "np", "range", "sum", "len", "float", "str", "list", "print", "round", "pow"}


def safe(s):
    return s + "_c" if s in RESERVED else s


class Translate:
    """C function -> Python FunctionDef"""

    def __init__(self, lib, cf):
        self.lib = lib
        self.cf = cf
        self.u = cf.unit
        self.ptr = {}  # pointer variable -> array name it points into (a parameter)
        self.structs = {}  # struct pointer variable -> field list
        self.pre = []  # statements to emit before the current one
        self.tmp = 0
        self.ln = cf.line

    # -- helpers
    def at(self, x):
        for y in ast.walk(x):
            if not hasattr(y, "lineno"):
                y.lineno = self.ln or 1
                y.col_offset = 0
                y.end_lineno = self.ln or 1
                y.end_col_offset = 0
        return x

    def nm(self, s, store=False):
        return ast.Name(safe(s), ast.Store() if store else ast.Load())

    def bi(self, s):
        return ast.Name(s, ast.Load())

    def bin(self, a, op, b):
        return ast.BinOp(a, op, b)

    def add(self, a, b):
        if isinstance(a, ast.Constant) and a.value == 0:
            return b
        if isinstance(b, ast.Constant) and b.value == 0:
            return a
        return ast.BinOp(a, ast.Add(), b)

    def fail(self, n, why):
        raise Unsupported("%s:%d (%s): %s" % (self.u.rel, self.u.nline(n) or self.ln, self.cf.name, why))

    def run(self):
        args, names = [], []
        for p, q in self.cf.params:
            if is_ptr(q):
                s = self.lib.struct(elem(q))
                if s is not None:
                    self.structs[p] = s
                    names += [p + "__" + f for f, _ in s]
                else:
                    self.ptr[p] = p
                    names += [p, p + "__off"]
            else:
                names.append(p)
        self.locals_ptr(self.cf.body)
        body = self.block(self.cf.body)
        fn = ast.FunctionDef(
            name=self.cf.name,
            args=ast.arguments(posonlyargs=[], args=[ast.arg(safe(x)) for x in names], vararg=None, kwonlyargs=[], kw_defaults=[], kwarg=None,
                               defaults=[]),
            body=body or [ast.Pass()], decorator_list=[], returns=None, type_comment=None, type_params=[])
        self.at(fn)
        ast.fix_missing_locations(fn)
        return fn

    def locals_ptr(self, body):
        """which array every local pointer points into (one array each, to a fixpoint)"""
        def walk(n):
            if not n or "kind" not in n:
                return
            if n["kind"] == "VarDecl" and is_ptr(ctype(n)):
                if n.get("inner"):
                    pend.append((n["name"], n["inner"][-1], n))
            if n["kind"] == "BinaryOperator" and n["opcode"] == "=" and is_ptr(ctype(n["inner"][0])):
                l = strip(n["inner"][0])
                if l["kind"] == "DeclRefExpr":
                    pend.append((l["referencedDecl"]["name"], n["inner"][1], n))
            for c in n.get("inner", []):
                walk(c)
        pend = []
        walk(body)
        for _ in range(len(pend) + 1):
            for v, e, n in pend:
                s = strip(e)
                if s["kind"] == "DeclRefExpr" and s["referencedDecl"]["name"] in self.structs:
                    self.structs[v] = self.structs[s["referencedDecl"]["name"]]
                    continue
                b = self.base(e)
                if b is None:
                    continue
                if v in self.ptr and self.ptr[v] != b:
                    self.fail(n, "pointer %s points into more than one array" % v)
                self.ptr[v] = b

    def base(self, e):
        n = strip(e)
        k = n["kind"]
        if k == "DeclRefExpr":
            return self.ptr.get(n["referencedDecl"]["name"])
        if k == "UnaryOperator" and n["opcode"] in ("&", "*", "++", "--"):
            return self.base(n["inner"][0])
        if k == "ArraySubscriptExpr":
            return self.base(n["inner"][0])
        if k == "BinaryOperator" and n["opcode"] in ("+", "-"):
            return self.base(n["inner"][0]) or self.base(n["inner"][1])
        if k == "ConditionalOperator":
            a, b = self.base(n["inner"][1]), self.base(n["inner"][2])
            return a if a == b else None
        return None

    # -- pointers: (array, offset)
    def pointer(self, e):
        n = strip(e)
        k = n["kind"]
        if k == "DeclRefExpr":
            v = n["referencedDecl"]["name"]
            if v in self.ptr:
                return self.ptr[v], self.nm(v + "__off")
            self.fail(n, "unknown pointer " + v)
        if k == "UnaryOperator" and n["opcode"] == "&":
            x = strip(n["inner"][0])
            if x["kind"] == "ArraySubscriptExpr":
                return self.element(x)
            if x["kind"] == "UnaryOperator" and x["opcode"] == "*":
                return self.pointer(x["inner"][0])
            self.fail(n, "address of " + x["kind"])
        if k == "UnaryOperator" and n["opcode"] in ("++", "--"):
            v = strip(n["inner"][0])["referencedDecl"]["name"]
            return self.ptr[v], self.incdec(n, v + "__off")
        if k == "BinaryOperator" and n["opcode"] in ("+", "-"):
            l, r = n["inner"]
            if is_ptr(ctype(l)) or self.base(l):
                b, o = self.pointer(l)
                self.index_arith(r)
                return b, (self.add(o, self.expr(r)) if n["opcode"] == "+" else self.bin(o, ast.Sub(), self.expr(r)))
            b, o = self.pointer(r)
            self.index_arith(l)
            return b, self.add(self.expr(l), o)
        if k == "ConditionalOperator":
            c, x, y = n["inner"]
            a, b = self.pointer(x), self.pointer(y)
            return a[0], ast.IfExp(self.expr(c), a[1], b[1])
        self.fail(n, "pointer expression " + k)

    def element(self, n):
        """(array, index) of an lvalue a[i] or *p"""
        if n["kind"] == "ArraySubscriptExpr":
            b, o = self.pointer(n["inner"][0])
            self.index_arith(n["inner"][1])
            return b, self.add(o, self.expr(n["inner"][1]))
        return self.pointer(n["inner"][0])

    def index_arith(self, e, top=True):
        """products of run-time sizes inside an index need 64 bits"""
        n = unparen(e)
        if n["kind"] == "BinaryOperator" and n["opcode"] == "*" and is_int(ctype(n)) and width(ctype(n)) < 64:
            if not any(strip(x)["kind"] in ("IntegerLiteral", "UnaryExprOrTypeTraitExpr") for x in n["inner"]):
                self.cf.notes.append((self.u.nline(n), "the product '%s' in an index is computed in %d bits" % (self.u.text(n)[:60], width(ctype(n)))))
        if n["kind"] in ("ImplicitCastExpr", "CStyleCastExpr") and n.get("castKind") == "IntegralCast":
            a, b = width(ctype(n["inner"][-1])), width(ctype(n))
            if a and b and b < a and strip(n)["kind"] not in ("IntegerLiteral",):
                self.cf.notes.append((self.u.nline(n), "an index is narrowed from %d to %d bits" % (a, b)))
        for c in n.get("inner", []):
            if c and "kind" in c and c["kind"] not in ("ArraySubscriptExpr", "CallExpr", "DeclRefExpr"):
                self.index_arith(c, False)

    def incdec(self, n, var, step=None):
        d = ast.Constant(1)
        op = ast.Add() if n["opcode"] == "++" else ast.Sub()
        if n.get("isPostfix"):
            self.tmp += 1
            t = "t__%d" % self.tmp
            self.pre.append(self.at(ast.Assign([self.nm(t, True)], self.nm(var))))
            self.pre.append(self.at(ast.Assign([self.nm(var, True)], self.bin(self.nm(var), op, d))))
            return self.nm(t)
        self.pre.append(self.at(ast.Assign([self.nm(var, True)], self.bin(self.nm(var), op, d))))
        return self.nm(var)

    # -- expressions
    def expr(self, e):
        n = e
        k = n["kind"]
        if k in ("ParenExpr", "ConstantExpr"):
            return self.expr(n["inner"][-1])
        if k in ("ImplicitCastExpr", "CStyleCastExpr"):
            src, dst = ctype(n["inner"][-1]), ctype(n)
            x = self.expr(n["inner"][-1])
            if n.get("castKind") == "FloatingToIntegral":
                return ast.Call(self.bi("int"), [x], [])
            if n.get("castKind") == "IntegralToFloating" and isinstance(x, ast.Constant) and isinstance(x.value, int):
                return x
            if n.get("castKind") == "FloatingCast" and plain(dst) == "float":
                return ast.Call(ast.Attribute(self.bi("np"), "float32", ast.Load()), [x], [])
            if n.get("castKind") == "IntegralCast":
                a, b = width(src), width(dst)
                if a and b and b < a and not isinstance(x, ast.Constant):
                    self.cf.notes.append((self.u.nline(n), "'%s' is narrowed from %d to %d bits" % (self.u.text(n)[:60], a, b)))
            return x
        if k == "DeclRefExpr":
            v = n["referencedDecl"]["name"]
            if n["referencedDecl"]["kind"] == "EnumConstantDecl":
                self.fail(n, "enum constant")
            return self.nm(v)
        if k == "IntegerLiteral":
            return ast.Constant(int(n["value"]))
        if k == "FloatingLiteral":
            v = float(n["value"])
            return ast.Constant(int(v) if v == int(v) and abs(v) < 1e6 else v)
        if k == "UnaryOperator":
            op = n["opcode"]
            if op == "*":
                a, i = self.element(n)
                return ast.Subscript(self.nm(a), i, ast.Load())
            if op == "-":
                return ast.UnaryOp(ast.USub(), self.expr(n["inner"][0]))
            if op == "+":
                return self.expr(n["inner"][0])
            if op == "!":
                return ast.UnaryOp(ast.Not(), self.expr(n["inner"][0]))
            if op in ("++", "--"):
                x = strip(n["inner"][0])
                if x["kind"] != "DeclRefExpr":
                    self.fail(n, "increment of an element inside an expression")
                return self.incdec(n, x["referencedDecl"]["name"])
            self.fail(n, "operator " + op)
        if k == "ArraySubscriptExpr":
            a, i = self.element(n)
            return ast.Subscript(self.nm(a), i, ast.Load())
        if k == "MemberExpr":
            b = strip(n["inner"][0])
            if b["kind"] == "UnaryOperator" and b["opcode"] == "*":
                b = strip(b["inner"][0])
            if b["kind"] == "ArraySubscriptExpr":
                i = strip(b["inner"][1])
                if i["kind"] == "IntegerLiteral" and i["value"] == "0":
                    b = strip(b["inner"][0])
            if b["kind"] == "DeclRefExpr" and b["referencedDecl"]["name"] in self.structs:
                return self.nm(b["referencedDecl"]["name"] + "__" + n["name"])
            self.fail(n, "member access")
        if k == "BinaryOperator":
            return self.binary(n)
        if k == "ConditionalOperator":
            c, a, b = n["inner"]
            m = self.minmax(n)
            if m is not None:
                return m
            return ast.IfExp(self.cond(c), self.expr(a), self.expr(b))
        if k == "CallExpr":
            return self.call(n)
        if k == "UnaryExprOrTypeTraitExpr":
            self.fail(n, "sizeof")
        self.fail(n, "expression " + k)

    def minmax(self, n):
        c, a, b = [strip(x) for x in n["inner"]]
        if c["kind"] != "BinaryOperator" or c["opcode"] not in ("<", ">", "<=", ">="):
            return None
        x, y = self.expr(c["inner"][0]), self.expr(c["inner"][1])
        p, q = self.expr(n["inner"][1]), self.expr(n["inner"][2])
        d = ast.dump
        if c["opcode"] in (">", ">="):
            if d(x) == d(p) and d(y) == d(q):
                return ast.Call(self.bi("max"), [x, y], [])
            if d(x) == d(q) and d(y) == d(p):
                return ast.Call(self.bi("min"), [x, y], [])
        else:
            if d(x) == d(p) and d(y) == d(q):
                return ast.Call(self.bi("min"), [x, y], [])
            if d(x) == d(q) and d(y) == d(p):
                return ast.Call(self.bi("max"), [x, y], [])
        return None

    def cond(self, n):
        return self.expr(n)

    CMP = {"<": ast.Lt, ">": ast.Gt, "<=": ast.LtE, ">=": ast.GtE, "==": ast.Eq, "!=": ast.NotEq}
    OPS = {"+": ast.Add, "-": ast.Sub, "*": ast.Mult, "%": ast.Mod}

    def binary(self, n):
        op = n["opcode"]
        l, r = n["inner"]
        if op in self.CMP:
            return ast.Compare(self.expr(l), [self.CMP[op]()], [self.expr(r)])
        if op in ("&&", "||"):
            a = self.expr(l)
            k = len(self.pre)
            b = self.expr(r)
            if len(self.pre) != k:
                self.fail(n, "side effect in a condition")
            return ast.BoolOp(ast.And() if op == "&&" else ast.Or(), [a, b])
        if op in self.OPS:
            return self.bin(self.expr(l), self.OPS[op](), self.expr(r))
        if op == "/":
            return self.bin(self.expr(l), ast.FloorDiv() if is_int(ctype(n)) else ast.Div(), self.expr(r))
        if op == ",":
            self.stmt_into(l, self.pre)
            return self.expr(r)
        if op == "=":
            # chained assignment
            self.assign(n, self.pre)
            return self.lvalue_load(l)
        self.fail(n, "operator " + op)

    def lvalue_load(self, l):
        x = strip(l)
        if x["kind"] == "DeclRefExpr":
            return self.nm(x["referencedDecl"]["name"])
        a, i = self.element(x)
        return ast.Subscript(self.nm(a), i, ast.Load())

    def call(self, n):
        f = strip(n["inner"][0])
        if f["kind"] != "DeclRefExpr":
            self.fail(n, "indirect call")
        name = f["referencedDecl"]["name"]
        if name in ("fabs", "abs", "labs", "llabs"):
            return ast.Call(self.bi("abs"), [self.expr(x) for x in n["inner"][1:]], [])
        if name in ("fmax", "fmin"):
            return ast.Call(self.bi(name[1:]), [self.expr(x) for x in n["inner"][1:]], [])
        if name in MATH:
            return ast.Call(ast.Attribute(self.bi("np"), MATH[name], ast.Load()), [self.expr(x) for x in n["inner"][1:]], [])
        g = self.lib.find(name, self.u)
        if g is None:
            self.fail(n, "call of unknown function " + name)
        args = []
        for (p, q), x in zip(g.params, n["inner"][1:]):
            if is_ptr(q):
                s = self.lib.struct(elem(q))
                if s is not None:
                    y = strip(x)
                    if y["kind"] == "DeclRefExpr" and y["referencedDecl"]["name"] in self.structs:
                        args += [self.nm(y["referencedDecl"]["name"] + "__" + f_) for f_, _ in s]
                        continue
                    self.fail(n, "structure argument")
                b, o = self.pointer(x)
                args += [self.nm(b), o]
            else:
                args.append(self.expr(x))
        return ast.Call(self.bi(name), args, [])

    # -- statements
    def block(self, n):
        out = []
        for s in ([n] if n["kind"] != "CompoundStmt" else n.get("inner", [])):
            self.stmt_into(s, out)
        return out

    def flush(self, out):
        out.extend(self.pre)
        self.pre = []

    def emit(self, out, s):
        self.flush(out)
        out.append(self.at(s))

    def assign(self, n, out):
        l, r = n["inner"]
        x = strip(l)
        op = n["opcode"]
        if x["kind"] == "DeclRefExpr":
            v = x["referencedDecl"]["name"]
            if v in self.structs:
                y = strip(r)
                for f, _ in self.structs[v]:
                    self.emit(out, ast.Assign([self.nm(v + "__" + f, True)], self.nm(y["referencedDecl"]["name"] + "__" + f)))
                return
            if v in self.ptr:
                if op == "=":
                    b, o = self.pointer(r)
                    self.emit(out, ast.Assign([self.nm(v + "__off", True)], o))
                else:
                    self.index_arith(r)
                    o = self.expr(r)
                    self.emit(out, ast.Assign([self.nm(v + "__off", True)], self.bin(self.nm(v + "__off"), ast.Add() if op == "+=" else ast.Sub(), o)))
                return
            tgt = self.nm(v, True)
            cur = self.nm(v)
        elif x["kind"] == "ArraySubscriptExpr" or (x["kind"] == "UnaryOperator" and x["opcode"] == "*"):
            a, i = self.element(x)
            tgt = ast.Subscript(self.nm(a), i, ast.Store())
            cur = ast.Subscript(self.nm(a), i, ast.Load())
        else:
            self.fail(n, "assignment to " + x["kind"])
        val = self.expr(r)
        if op != "=":
            o = op[:-1]
            ct = n.get("computeResultType", {}).get("qualType", ctype(n))
            if o == "/":
                val = self.bin(cur, ast.FloorDiv() if is_int(ct) else ast.Div(), val)
            elif o in self.OPS:
                val = self.bin(cur, self.OPS[o](), val)
            else:
                self.fail(n, "operator " + op)
            if is_int(ctype(l)) and not is_int(ct):
                val = ast.Call(self.bi("int"), [val], [])
        self.emit(out, ast.Assign([tgt], val))

    def stmt_into(self, n, out):
        if not n or "kind" not in n:
            return
        k = n["kind"]
        self.ln = self.u.nline(n) or self.ln
        if k == "CompoundStmt":
            out.extend(self.block(n))
        elif k == "NullStmt":
            return
        elif k == "DeclStmt":
            for v in n.get("inner", []):
                if v["kind"] != "VarDecl":
                    continue
                if v.get("storageClass") == "static":
                    self.fail(n, "static local variable " + v["name"])
                init = [x for x in v.get("inner", []) if "kind" in x and not x["kind"].endswith("Attr")]
                nm = v["name"]
                if is_ptr(ctype(v)):
                    if plain(ctype(v)).endswith("]"):
                        self.fail(n, "local array " + nm)
                    if init and nm in self.structs:
                        y = strip(init[-1])
                        for f, _ in self.structs[nm]:
                            self.emit(out, ast.Assign([self.nm(nm + "__" + f, True)], self.nm(y["referencedDecl"]["name"] + "__" + f)))
                    elif init:
                        b, o = self.pointer(init[-1])
                        self.emit(out, ast.Assign([self.nm(nm + "__off", True)], o))
                    continue
                if init:
                    e = self.expr(init[-1])
                    self.emit(out, ast.Assign([self.nm(nm, True)], e))
        elif k in ("BinaryOperator", "CompoundAssignOperator"):
            if n["opcode"] == ",":
                for x in n["inner"]:
                    self.stmt_into(x, out)
            elif n["opcode"].endswith("=") and n["opcode"] not in ("==", "<=", ">=", "!="):
                self.assign(n, out)
            else:
                self.expr(n)
                self.flush(out)
        elif k in ("ParenExpr", "ImplicitCastExpr", "CStyleCastExpr"):
            self.stmt_into(n["inner"][-1], out)
        elif k == "UnaryOperator" and n["opcode"] in ("++", "--"):
            x = strip(n["inner"][0])
            op = ast.Add() if n["opcode"] == "++" else ast.Sub()
            if x["kind"] == "DeclRefExpr":
                v = x["referencedDecl"]["name"]
                v = v + "__off" if v in self.ptr else v
                self.emit(out, ast.Assign([self.nm(v, True)], self.bin(self.nm(v), op, ast.Constant(1))))
            else:
                a, i = self.element(x)
                self.emit(out, ast.Assign([ast.Subscript(self.nm(a), i, ast.Store())],
                                          self.bin(ast.Subscript(self.nm(a), i, ast.Load()), op, ast.Constant(1))))
        elif k == "CallExpr":
            c = self.call(n)
            self.emit(out, ast.Expr(c))
        elif k == "IfStmt":
            parts = [x for x in n["inner"] if "kind" in x]
            c = self.cond(parts[0])
            ln = self.ln
            self.flush(out)
            a = self.block(parts[1])
            b = self.block(parts[2]) if len(parts) > 2 else []
            s = ast.If(c, a or [ast.Pass()], b)
            self.ln = ln
            self.emit(out, s)
        elif k == "ForStmt":
            self.for_(n, out)
        elif k == "WhileStmt":
            parts = [x for x in n["inner"] if "kind" in x]
            self.loop(parts[0], parts[1], None, out)
        elif k == "DoStmt":
            body, c = [x for x in n["inner"] if "kind" in x]
            b = self.block(body)
            if any(isinstance(y, ast.Continue) for s in b for y in ast.walk(s)):
                self.fail(n, "continue in do loop")
            t = self.cond(c)
            b += self.pre
            self.pre = []
            b.append(self.at(ast.If(ast.UnaryOp(ast.Not(), t), [ast.Break()], [])))
            self.emit(out, ast.While(ast.Constant(True), b, []))
        elif k == "ReturnStmt":
            v = self.expr(n["inner"][0]) if n.get("inner") else None
            self.emit(out, ast.Return(v))
        elif k == "BreakStmt":
            self.emit(out, ast.Break())
        elif k == "ContinueStmt":
            self.emit(out, ast.Continue())
        elif k.startswith("OMP"):
            self.region(n, out)
        elif k == "CapturedStmt":
            self.stmt_into(n["inner"][0]["inner"][0], out)
        elif k.endswith("Literal"):
            return  # a value nobody uses
        elif k in ("DeclRefExpr", "ArraySubscriptExpr", "ConditionalOperator", "UnaryOperator", "MemberExpr", "UnaryExprOrTypeTraitExpr"):
            e = self.expr(n)
            self.flush(out)
            if any(isinstance(x, (ast.Subscript, ast.Call)) for x in ast.walk(e)):
                self.emit(out, ast.Expr(e))
        else:
            self.fail(n, "statement " + k)

    def region(self, n, out):
        self.cf.regions.append(n)
        body = next((x for x in n.get("inner", []) if x.get("kind") == "CapturedStmt"), None)
        if body is None:
            body = next((x for x in n.get("inner", []) if x.get("kind", "").endswith("Stmt") or x.get("kind", "").endswith("Operator")), None)
        if body is None:
            return  # stand-alone directive (barrier)
        new = []
        self.stmt_into(body, new)
        loops = [s for s in new if isinstance(s, ast.For)]
        if loops and "For" in n["kind"] and "Simd" not in n["kind"].replace("ForSimd", ""):
            loops[0].omp = n
        self.plain = getattr(self, "plain", 0) + (n["kind"] == "OMPParallelDirective")
        out.extend(new)

    def loop(self, c, body, inc, out):
        t = self.cond(c) if c and "kind" in c else ast.Constant(True)
        pre, self.pre = self.pre, []
        b = self.block(body)
        if inc and "kind" in inc:
            tail = []
            self.stmt_into(inc, tail)
            if any(isinstance(y, ast.Continue) for s in b for y in own(s)):
                b = put_before_continue(b, tail)
            b += tail
        if pre:
            b = pre + [self.at(ast.If(ast.UnaryOp(ast.Not(), t), [ast.Break()], []))] + b
            t = ast.Constant(True)
        self.emit(out, ast.While(t, b or [ast.Pass()], []))

    def for_(self, n, out):
        init, _, c, inc, body = n["inner"]
        m = self.canonical(init, c, inc, body)
        if m is None:
            if init and "kind" in init:
                self.stmt_into(init, out)
            self.loop(c, body, inc, out)
            return
        v, lo, hi, step = m
        args = [lo, hi] if step == 1 else [lo, hi, ast.Constant(step)]
        ln = self.ln
        b = self.block(body)
        self.ln = ln
        self.emit(out, ast.For(self.nm(v, True), ast.Call(self.bi("range"), args, []), b or [ast.Pass()], [], None))
        if self.read_outside(v):
            self.emit(out, ast.Assign([self.nm(v, True)], ast.Call(self.bi("max" if step > 0 else "min"), [lo, hi], [])))

    def read_outside(self, v):
        """is the loop variable read outside the loops that set it?"""
        def walk(n, inside):
            if not n or "kind" not in n:
                return False
            if n["kind"] == "DeclRefExpr" and n["referencedDecl"]["name"] == v:
                return not inside
            if n["kind"] == "ForStmt":
                i = n["inner"][0]
                if i and "kind" in i and self.sets(i, v):
                    inside = True
            if n["kind"].startswith("OMP"):
                return any(walk(c, inside) for c in n["inner"] if c and c.get("kind") == "CapturedStmt")
            if n["kind"] == "CapturedStmt":
                return walk(n["inner"][0]["inner"][0], inside)
            if n["kind"] == "BinaryOperator" and n["opcode"] == "=" and strip(n["inner"][0]).get("referencedDecl", {}).get("name") == v:
                return walk(n["inner"][1], inside)
            return any(walk(c, inside) for c in n.get("inner", []))
        return walk(self.cf.body, False)

    def sets(self, n, v):
        if not n or "kind" not in n:
            return False
        if n["kind"] == "VarDecl" and n["name"] == v:
            return True
        if n["kind"] in ("BinaryOperator", "CompoundAssignOperator") and n["opcode"].endswith("=") and n["opcode"] not in ("==", "<=", ">=", "!="):
            x = strip(n["inner"][0])
            if x["kind"] == "DeclRefExpr" and x["referencedDecl"]["name"] == v:
                return True
        if n["kind"] == "UnaryOperator" and n["opcode"] in ("++", "--", "&"):
            x = strip(n["inner"][0])
            if x["kind"] == "DeclRefExpr" and x["referencedDecl"]["name"] == v:
                return True
        return any(self.sets(c, v) for c in n.get("inner", []))

    def canonical(self, init, c, inc, body):
        """(variable, low, high, step) of a counting loop over an unchanged bound"""
        if not (init and "kind" in init and c and "kind" in c and inc and "kind" in inc):
            return None
        if init["kind"] == "DeclStmt" and len(init["inner"]) == 1:
            v = init["inner"][0]["name"]
            e = init["inner"][0].get("inner", [None])[-1]
        elif init["kind"] == "BinaryOperator" and init["opcode"] == "=" and strip(init["inner"][0])["kind"] == "DeclRefExpr":
            v = strip(init["inner"][0])["referencedDecl"]["name"]
            e = init["inner"][1]
        else:
            return None
        if e is None or v in self.ptr or self.sets(body, v):
            return None
        c = unparen(c)
        if c["kind"] != "BinaryOperator" or c["opcode"] not in ("<", "<=", ">", ">=", "!="):
            return None
        l, r = c["inner"]
        op = c["opcode"]
        if strip(r).get("referencedDecl", {}).get("name") == v:
            l, r = r, l
            op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
        if strip(l).get("referencedDecl", {}).get("name") != v:
            return None
        i = unparen(inc)
        step = None
        if i["kind"] == "UnaryOperator" and i["opcode"] in ("++", "--") and strip(i["inner"][0]).get("referencedDecl", {}).get("name") == v:
            step = 1 if i["opcode"] == "++" else -1
        elif i["kind"] == "CompoundAssignOperator" and i["opcode"] in ("+=", "-=") and strip(i["inner"][0]).get("referencedDecl", {}).get("name") == v:
            s = strip(i["inner"][1])
            if s["kind"] == "IntegerLiteral":
                step = int(s["value"]) * (1 if i["opcode"] == "+=" else -1)
        if not step:
            return None
        if (step > 0) != (op in ("<", "<=")) or op == "!=":
            return None
        names = set()

        def refs(n):
            if not n or "kind" not in n:
                return
            if n["kind"] == "DeclRefExpr":
                names.add(n["referencedDecl"]["name"])
            if n["kind"] in ("ArraySubscriptExpr", "CallExpr") or (n["kind"] == "UnaryOperator" and n["opcode"] in ("*", "++", "--")):
                names.add(None)
            for x in n.get("inner", []):
                refs(x)
        refs(r)
        if None in names or any(self.sets(body, x) for x in names if x != v) or v in names:
            return None
        a, b = width(ctype(strip(l))), width(ctype(strip(r)))
        if a and b and a < b and strip(r)["kind"] != "IntegerLiteral":
            self.cf.notes.append((self.u.nline(c), "the %d-bit counter %s runs to a %d-bit bound" % (a, v, b)))
        k = len(self.pre)
        lo, hi = self.expr(e), self.expr(r)
        if len(self.pre) != k:
            return None
        if op == "<=":
            hi = self.bin(hi, ast.Add(), ast.Constant(1))
        if op == ">=":
            hi = self.bin(hi, ast.Sub(), ast.Constant(1))
        return v, lo, hi, step


def own(s):
    """nodes of a statement outside nested loops"""
    yield s
    if isinstance(s, (ast.For, ast.While)):
        return
    for c in ast.iter_child_nodes(s):
        yield from own(c)


def put_before_continue(body, tail):
    import copy

    out = []
    for s in body:
        if isinstance(s, ast.Continue):
            out.extend(copy.deepcopy(tail))
        elif isinstance(s, ast.If):
            s.body = put_before_continue(s.body, tail)
            s.orelse = put_before_continue(s.orelse, tail)
        out.append(s)
    return out


class CModule(Module):
    """a translated C file, in the shape of a Python module"""

    def __init__(self, prog, name, unit):
        self.prog = prog
        self.name = name
        self.path = unit.path
        self.rel = unit.rel
        self.is_pkg = False
        self.src = unit.src
        self.tree = ast.Module([], [])
        self.funcs = {}
        self.classes = {}
        self.imports = {"np": "numpy"}
        self.assigns = {}


class Native:
    """the native library of the analysed tree"""

    DIR = "quakemigrate/core/src"

    def __init__(self, prog):
        self.prog = prog
        self.units = {}
        d = os.path.join(prog.root, self.DIR)
        files = sorted(f for f in os.listdir(d) if f.endswith(".c")) if os.path.isdir(d) else []
        if not files:
            raise AnalysisBroken("no native sources in " + self.DIR)
        for f in files:
            rel = self.DIR + "/" + f
            self.units[rel] = Unit(os.path.join(d, f), rel)
        self.funcs = {}
        for u in self.units.values():
            for f in u.funcs.values():
                if not f.static:
                    self.funcs[f.name] = f
        self.mods = {}
        self.broken = {}
        for rel, u in self.units.items():
            m = CModule(prog, "quakemigrate.core.src." + os.path.basename(rel)[:-2], u)
            self.mods[rel] = m
            for f in u.funcs.values():
                try:
                    node = Translate(self, f).run()
                except Unsupported as e:
                    self.broken[f.name] = str(e)
                    continue
                f.func = Func(m, node, m.name + "." + f.name)
                f.func.native = f
                m.funcs[f.name] = f.func
        for m in self.mods.values():
            for f in self.funcs.values():
                if f.func is not None:
                    m.funcs.setdefault(f.name, f.func)

    def struct(self, name):
        for u in self.units.values():
            if name in u.structs:
                return u.structs[name]
        return None

    def find(self, name, unit):
        return unit.funcs.get(name) or self.funcs.get(name)


def native(prog):
    n = getattr(prog, "_native", None)
    if n is None:
        n = prog._native = Native(prog)
    return n
