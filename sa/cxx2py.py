"""The lowered C++ bodies (sa.cxx) as syntax trees of the language that sa.interp analyses.

Each class and free function of the simulator becomes a class or function of a synthetic program: pointers and vectors are indexable
objects, mutable references to scalars are additional results, `for` loops that count are ranges, `switch` is a chain of comparisons.
Nothing is executed; the translation only makes the bodies comparable with the references in /verif/specs_cxx.
"""
import ast
import builtins
import json
import keyword
import os
import re
from .program import Program, Module, Class, Func, AnalysisBroken

NAMES = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "specs_cxx", "names.json")
OPS = {"+": ast.Add, "-": ast.Sub, "*": ast.Mult, "/": ast.Div, "%": ast.Mod, "&": ast.BitAnd, "|": ast.BitOr, "^": ast.BitXor, "<<": ast.LShift,
       ">>": ast.RShift, "//": ast.FloorDiv}
CMP = {"<": ast.Lt, ">": ast.Gt, "<=": ast.LtE, ">=": ast.GtE, "==": ast.Eq, "!=": ast.NotEq}
MATH = {"fabs": "abs", "fabsf": "abs", "fmax": "max", "fmaxf": "max", "fmin": "min", "fminf": "min", "expf": "exp", "logf": "log", "powf": "pow", "sqrtf": "sqrt",
        "floorf": "floor", "roundf": "round", "ceilf": "ceil", "log2f": "log2", "log10f": "log10", "lroundf": "lround", "sinf": "sin", "cosf": "cos",
        "isnanf": "isnan", "rintf": "rint"}
SCALAR = re.compile(r"^(const )?(unsigned |signed )?(float|double|half|int|short|long|char|bool|size_t|uint\w*|int\w*_t|unsigned|.*\*|std::string|basic_string.*|.*Type|RPU::\w*Type\w*|uint64_t)( const)?$")


class Unsupported(Exception):
    pass


def short(ty):
    """Class name without namespace and template arguments."""
    ty = re.sub(r"^(const|class|struct) ", "", ty.strip())
    ty = re.sub(r"[&* ]+$", "", ty)
    ty = re.sub(r" const$", "", ty)
    base = re.sub(r"<.*", "", ty)
    return base.split("::")[-1]


def ident(s):
    s = re.sub(r"RPU::|std::|<float>|class |struct ", "", s)
    return re.sub(r"\W+", "_", s).strip("_")


def pyid(n):
    n = re.sub(r"\W", "_", n)
    if not n or n[0].isdigit():
        n = "_" + n
    return n + "_" if keyword.iskeyword(n) or n in ("self", "None", "True", "False") else n


def params_of(ty):
    """Parameter types of a function type."""
    i = ty.find("(")
    depth, cur, out, j = 0, "", [], i + 1
    while j < len(ty):
        c = ty[j]
        if c in "(<[":
            depth += 1
        elif c in ">]":
            depth -= 1
        elif c == ")":
            if depth == 0:
                break
            depth -= 1
        if c == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
        j += 1
    if cur.strip():
        out.append(cur.strip())
    return out


def mutable_scalar_ref(t):
    t = t.strip()
    if not t.endswith("&") or t.endswith("&&"):
        return False
    t = t[:-1].strip()
    if t.startswith("const ") and not t.endswith("*"):
        return False
    return bool(SCALAR.match(t))


def outs_of(ty):
    return [i for i, p in enumerate(params_of(ty)) if mutable_scalar_ref(p)]


def peel(e):
    while e and e[0] in ("cast", "defarg"):
        e = e[2] if e[0] == "cast" else e[1]
    return e


def N(n):
    return ast.Name(n, ast.Load())


def K(v):
    return ast.Constant(v)


def CALL(f, *a):
    return ast.Call(N(f) if isinstance(f, str) else f, list(a), [])


def assigned(e, name):
    """The variable is written somewhere in the tree of facts."""
    if isinstance(e, list):
        if e and e[0] in ("asg",) and peel(e[1])[:2] == ["var", name]:
            return True
        if e and e[0] == "aug" and peel(e[2])[:2] == ["var", name]:
            return True
        if e and e[0] == "un" and e[1] in ("++", "--", "post++", "post--") and peel(e[2])[:2] == ["var", name]:
            return True
        if e and e[0] == "opcall" and e[1] in ("=", "+=", "-=", "*=", "/=") and peel(e[2][0])[:2] == ["var", name]:
            return True
        if e and e[0] == "un" and e[1] == "&" and peel(e[2])[:2] == ["var", name]:
            return True
        if e and e[0] in ("call", "mcall"):
            c, a = (e[1], e[2]) if e[0] == "call" else (e[2], e[3])
            if isinstance(c, dict):
                for r, x in zip(c.get("ref", ()), a):
                    if r == "&" and isinstance(x, list) and peel(x)[:2] == ["var", name]:
                        return True
        return any(assigned(x, name) for x in e if isinstance(x, list))
    return False


def lvalues(e, out):
    """Variables and members written in the tree."""
    if isinstance(e, list):
        t = None
        if e and e[0] == "asg":
            t = e[1]
        elif e and e[0] == "aug" or e and e[0] == "un" and e[1] in ("++", "--", "post++", "post--"):
            t = e[2]
        elif e and e[0] == "opcall" and e[1] in ("=", "+=", "-="):
            t = e[2][0]
        if t is not None:
            t = peel(t)
            while t and t[0] in ("idx",):
                t = peel(t[1])
            if t and t[0] == "var":
                out.add(t[1])
            elif t and t[0] == "mem":
                out.add("." + t[2])
        for x in e:
            if isinstance(x, list):
                lvalues(x, out)
    return out


def uses(e, out):
    if isinstance(e, list):
        if e and e[0] == "var":
            out.add(e[1])
        elif e and e[0] == "mem":
            out.add("." + e[2])
        for x in e:
            if isinstance(x, list):
                uses(x, out)
    return out


def hasside(e):
    if isinstance(e, list):
        if e and (e[0] in ("asg", "aug", "throw") or e[0] == "un" and e[1] in ("++", "--", "post++", "post--") or e[0] == "opcall" and e[1] in ("=", "+=", "-=", "*=", "/=")):
            return True
        return any(hasside(x) for x in e if isinstance(x, list))
    return False


class Body:
    """One function."""
    def __init__(self, names, f):
        self.names, self.f = names, f
        self.n = 0
        self.scopes = [{}]
        self.used = set()
        self.line = f.get("line", 1)
        self.subst = {}

    # -- variables
    def declare(self, name):
        n = pyid(name)
        if hasattr(builtins, n) or n in self.names.free or (n.startswith("m_") and n[2:] in MATH.values()) or n.startswith(("std_", "make_")) or n in ("ptr_add", "to_int"):
            n += "_v"
        k, i = n, 1
        while k in self.used and any(k in s.values() for s in self.scopes):
            i += 1
            k = "%s__%d" % (n, i)
        self.used.add(k)
        self.scopes[-1][name] = k
        return k

    def var(self, name):
        for s in reversed(self.scopes):
            if name in s:
                return s[name]
        return pyid(name)

    def tmp(self):
        self.n += 1
        return "t__%d" % self.n

    # -- function
    def func(self):
        f = self.f
        ps = []
        for i, (n, ty) in enumerate(f["params"]):
            ps.append(self.declare(n or "arg%d_" % i))
        self.outs = [ps[i] for i in outs_of(f["ty"])]
        ps = [self.declare(n) for n in f.get("targs", ())] + ps
        self.void = f["ty"].split("(")[0].strip() == "void" or f["kind"] in ("ctor", "copyctor", "movector", "dtor")
        body = []
        for i in f.get("inits", []):
            pre = []
            if i[0] == "mem":
                v = self.X(i[2], pre)
                body += pre + [ast.Assign([ast.Attribute(N("self"), i[1], ast.Store())], v)]
            elif i[0] == "base":
                e = peel(i[2])
                if e and e[0] == "new":
                    a = [self.X(x, pre) for x in e[2]]
                    body += pre + [ast.Expr(ast.Call(ast.Attribute(N(short(i[1])), self.names.ctor(short(i[1]), e), ast.Load()), [N("self")] + a, []))]
            elif i[0] == "deleg":
                e = peel(i[2])
                a = [self.X(x, pre) for x in e[2]]
                body += pre + [ast.Expr(ast.Call(ast.Attribute(N("self"), self.names.ctor(short(f["cls"]), e), ast.Load()), a, []))]
        body += self.S(f["body"])
        if self.outs and not (body and isinstance(body[-1], (ast.Return, ast.Raise))):
            body.append(ast.Return(self.result(None)))
        inst = bool(f.get("cls")) and not f.get("static")
        node = ast.FunctionDef(name=self.names.of(f), args=ast.arguments([], [ast.arg(x) for x in (["self"] if inst else []) + ps], None, [], [], None, []),
                               body=body or [ast.Pass()], decorator_list=[N("staticmethod")] if f.get("cls") and f.get("static") else [], returns=None,
                               type_params=[])
        node.lineno, node.col_offset = f.get("line", 1), 0
        Fills(self).visit(node)
        ast.fix_missing_locations(node)
        return node

    def result(self, v):
        if not self.outs:
            return v
        elts = ([] if self.void else [v if v is not None else K(None)]) + [N(o) for o in self.outs]
        return elts[0] if len(elts) == 1 else ast.Tuple(elts, ast.Load())

    def at(self, stmts, line):
        for s in stmts:
            for x in ast.walk(s):
                if isinstance(x, (ast.stmt, ast.expr)) and not hasattr(x, "lineno"):
                    x.lineno, x.col_offset, x.end_lineno, x.end_col_offset = line or self.line, 0, line or self.line, 0
        return stmts

    # -- statements
    def S(self, s):
        if not isinstance(s, list) or not s:
            return []
        k = s[0]
        if k == "block":
            only = [x for x in s[1]]
            if all(isinstance(x, list) and x and x[0] == "decl" for x in only):        # a declaration, not a scope
                return [y for x in only for y in self.S(x)]
            self.scopes.append({})
            out = [y for x in only for y in self.S(x)]
            self.scopes.pop()
            return out
        if k == "nop":
            return []
        if k == "decl":
            return self.at(self.decl(s), s[4] if len(s) > 4 else 0)
        if k == "expr":
            if len(s) > 2 and s[2]:
                self.line = s[2]
            return self.at(self.effect(s[1]), s[2] if len(s) > 2 else 0)
        if k == "ret":
            pre = []
            v = self.X(s[1], pre) if s[1] is not None and s[1] != ["none"] else None
            if v is not None and self.void:
                return self.at(pre + [ast.Expr(v), ast.Return(self.result(None))], s[2])
            return self.at(pre + [ast.Return(self.result(v))], s[2])
        if k == "if":
            pre = []
            c = self.X(s[1], pre)
            self.scopes.append({})
            a = self.S(s[2])
            self.scopes[-1] = {}
            b = self.S(s[3])
            self.scopes.pop()
            if not a and not b:
                return self.at(pre, s[4])
            if not a:
                return self.at(pre + [ast.If(ast.UnaryOp(ast.Not(), c), b, [])], s[4])
            return self.at(pre + [ast.If(c, a, b)], s[4])
        if k == "for":
            return self.at(self.For(s), s[5])
        if k == "while":
            return self.at(self.While(s[1], s[2]), s[3])
        if k == "do":
            self.scopes.append({})
            b = self.S(s[2])
            pre = []
            c = self.X(s[1], pre)
            self.scopes.pop()
            return self.at([ast.While(K(True), b + pre + [ast.If(ast.UnaryOp(ast.Not(), c), [ast.Break()], [])], [])], s[3])
        if k == "forrange":
            pre = []
            it = self.X(s[3], pre)
            self.scopes.append({})
            v = self.declare(s[1])
            if "&" in s[2] and "const" not in s[2] and assigned(s[4], s[1]):
                i = self.declare("i__" + s[1])
                self.subst[v] = ast.Subscript(it, N(i), ast.Load())
                b = self.S(s[4])
                r = [ast.For(ast.Name(i, ast.Store()), CALL("range", CALL("len", it)), b or [ast.Pass()], [])]
            else:
                b = self.S(s[4])
                r = [ast.For(ast.Name(v, ast.Store()), it, b or [ast.Pass()], [])]
            self.scopes.pop()
            return self.at(pre + r, s[5])
        if k == "switch":
            return self.at(self.switch(s), s[3] if len(s) > 3 else 0)
        if k == "break":
            return self.at([ast.Break()], 0)
        if k == "continue":
            return self.at([ast.Continue()], 0)
        if k == "try":
            return self.S(s[1])
        if k in ("case", "default"):
            return self.S(s[2] if k == "case" else s[1])
        raise Unsupported("statement " + k)

    def decl(self, s):
        name, ty, init = s[1], s[2], s[3]
        pre = []
        if re.search(r"basic_ostringstream|ostringstream|stringstream", ty):
            self.declare(name)
            return []
        if init is None:
            n = self.declare(name)
            return [ast.Assign([ast.Name(n, ast.Store())], CALL("make_array", K(ident(ty))) if ty.rstrip().endswith("]") else K(None))]
        if ty.rstrip().endswith("&") and not ty.startswith("const ") and assigned(self.f["body"], name):
            lv = self.L(init, pre)
            n = self.declare(name)
            if lv is not None:
                # the place is fixed here: its index is evaluated now
                self.subst[n] = self.fixed(lv, pre)
                return pre
        e = peel(init)
        while e and e[0] == "new" and len(e[2]) == 1:
            e = peel(e[2][0])
        if e and e[0] == "lambda":
            return self.localdef(name, e)
        v = self.X(init, pre)
        n = self.declare(name)
        return pre + [ast.Assign([ast.Name(n, ast.Store())], v)]

    def localdef(self, name, e):
        """A lambda with a name: a local function."""
        own = set()

        def decls(x):
            if isinstance(x, list):
                if x and x[0] in ("decl", "forrange") and isinstance(x[1], str):
                    own.add(x[1])
                for y in x:
                    decls(y)
        decls(e[2])
        for n, ty in e[1]:
            own.add(n)
            if mutable_scalar_ref(ty):
                raise Unsupported("lambda that writes a number through a parameter")
        for sc in self.scopes:
            for n in sc:
                if n not in own and assigned(e[2], n):
                    raise Unsupported("lambda that writes a captured variable")
        self.scopes.append({})
        ps = [self.declare(n or "arg%d_" % i) for i, (n, ty) in enumerate(e[1])]
        outs, void = self.outs, self.void
        self.outs, self.void = [], False
        body = self.S(e[2])
        self.outs, self.void = outs, void
        self.scopes.pop()
        n = self.declare(name)
        return [ast.FunctionDef(name=n, args=ast.arguments([], [ast.arg(x) for x in ps], None, [], [], None, []), body=body or [ast.Pass()],
                                decorator_list=[], returns=None, type_params=[])]

    def fixed(self, lv, pre):
        if isinstance(lv, ast.Subscript) and not isinstance(lv.slice, ast.Constant):
            t = self.tmp()
            pre.append(ast.Assign([ast.Name(t, ast.Store())], lv.slice))
            return ast.Subscript(self.fixed(lv.value, pre), N(t), ast.Load())
        if isinstance(lv, ast.Attribute):
            return ast.Attribute(self.fixed(lv.value, pre), lv.attr, ast.Load())
        return lv

    def While(self, cond, body):
        pre = []
        self.scopes.append({})
        c = self.X(cond, pre)
        b = self.S(body)
        self.scopes.pop()
        if pre:
            return [ast.While(K(True), pre + [ast.If(ast.UnaryOp(ast.Not(), c), [ast.Break()], [])] + b, [])]
        return [ast.While(c, b or [ast.Pass()], [])]

    def For(self, s):
        init, cond, inc, body = s[1], s[2], s[3], s[4]
        self.scopes.append({})
        try:
            r = self.counted(init, cond, inc, body)
            if r is not None:
                return r
            out = self.S(init) if init and init[0] != "block" else [y for x in (init[1] if init else []) for y in self.S(x)]
            pre = []
            c = self.X(cond, pre) if cond and cond != ["none"] else K(True)
            self.scopes.append({})
            b = self.S(body)
            self.scopes.pop()

            def step():
                return self.effect(inc) if inc else []
            b = self.continues(b, step)
            st = step()
            if pre:
                return out + [ast.While(K(True), pre + [ast.If(ast.UnaryOp(ast.Not(), c), [ast.Break()], [])] + b + st, [])]
            return out + [ast.While(c, (b + st) or [ast.Pass()], [])]
        finally:
            self.scopes.pop()

    def continues(self, b, step):
        """The increment is made before a `continue` of this loop."""
        out = []
        for s in b:
            if isinstance(s, ast.Continue):
                out += step()
            elif isinstance(s, ast.If):
                s.body, s.orelse = self.continues(s.body, step), self.continues(s.orelse, step)
            out.append(s)
        return out

    def counted(self, init, cond, inc, body):
        x = init
        while x and x[0] == "block" and len(x[1]) == 1:
            x = x[1][0]
        if not x or x[0] != "decl" or x[3] is None or not cond or not inc:
            return None
        i = x[1]
        c = peel(cond)
        if c[0] != "bin" or c[1] not in ("<", "<=", ">", ">="):
            return None
        a, b, op = peel(c[2]), peel(c[3]), c[1]
        if b[:2] == ["var", i]:
            a, b, op = b, a, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}[op]
        elif a[:2] != ["var", i]:
            return None
        else:
            b = c[3]
        p = peel(inc)
        if p[0] == "un" and p[1] in ("++", "post++") and peel(p[2])[:2] == ["var", i]:
            step, neg = None, False
        elif p[0] == "un" and p[1] in ("--", "post--") and peel(p[2])[:2] == ["var", i]:
            step, neg = None, True
        elif p[0] == "aug" and p[1] in ("+=",) and peel(p[2])[:2] == ["var", i]:
            step, neg = p[3], False
        else:
            return None
        if "*" in x[2] or len(p) > 3 and p[-1] == "p":
            return None
        if neg != (op in (">", ">=")):
            return None
        w = lvalues(body, set())
        if i in w or assigned(body, i) or (uses(b, set()) | (uses(step, set()) if step else set())) & w or hasside(b):
            return None
        pre = []
        lo = self.X(x[3], pre)
        hi = self.X(b, pre)
        st = self.X(step, pre) if step else None
        if pre:
            return None
        if op == "<=":
            hi = ast.BinOp(hi, ast.Add(), K(1))
        elif op == ">=":
            hi = ast.BinOp(hi, ast.Sub(), K(1))
        v = self.declare(i)
        self.scopes.append({})
        bb = self.S(body)
        self.scopes.pop()
        zero = isinstance(lo, ast.Constant) and lo.value == 0
        args = [lo, hi, K(-1)] if neg else ([lo, hi, st] if st is not None else ([hi] if zero else [lo, hi]))
        return [ast.For(ast.Name(v, ast.Store()), CALL("range", *args), bb or [ast.Pass()], [])]

    def switch(self, s):
        pre = []
        v = self.X(s[1], pre)
        if not isinstance(v, (ast.Name, ast.Attribute)):
            t = self.tmp()
            pre.append(ast.Assign([ast.Name(t, ast.Store())], v))
            v = N(t)
        body = s[2][1] if s[2] and s[2][0] == "block" else [s[2]]
        flat = []
        for x in body:
            labels = []
            while x and x[0] in ("case", "default"):
                labels.append(x[1] if x[0] == "case" else None)
                x = x[2] if x[0] == "case" else x[1]
            flat.append((labels, x))
        arms, default = [], None
        for i, (labels, _) in enumerate(flat):
            if not labels:
                continue
            b = []
            for _, y in flat[i:]:
                if y and y[0] == "break":
                    break
                b.append(y)
                z = y[1][-1] if y and y[0] == "block" and y[1] else y
                if z and z[0] == "break":
                    b[-1] = ["block", y[1][:-1]]
                    break
                if z and (z[0] == "ret" or z[0] == "expr" and peel(z[1])[0] == "throw"):
                    break
            self.scopes.append({})
            code = [st for y in b for st in self.S(y)]
            self.scopes.pop()
            if any(isinstance(q, ast.Break) for st in code for q in self.inloop(st)):
                raise Unsupported("break inside of a case")
            tests = [ast.Compare(v, [ast.Eq()], [self.X(l, pre)]) for l in labels if l is not None]
            if None in labels:
                default = code
                if tests and not default:
                    pass
            else:
                arms.append((tests[0] if len(tests) == 1 else ast.BoolOp(ast.Or(), tests), code))
        out = default or []
        for t, code in reversed(arms):
            out = [ast.If(t, code or [ast.Pass()], out)]
        return pre + out

    def inloop(self, st):
        yield st
        if isinstance(st, ast.If):
            for x in st.body + st.orelse:
                yield from self.inloop(x)

    # -- expression statements
    def effect(self, e):
        e = peel(e)
        k = e[0]
        pre = []
        if k == "asg":
            v = self.X(e[2], pre)
            t = self.L(e[1], pre)
            return pre + self.assign(t, v)
        if k == "aug":
            return self.aug(e)
        if k == "un" and e[1] in ("++", "--", "post++", "post--"):
            t = self.L(e[2], pre)
            if e[-1] == "p":
                return pre + self.assign(t, CALL("ptr_add", self.load(t), K(1 if "++" in e[1] else -1)))
            return pre + [ast.AugAssign(self.store(t), ast.Add() if "++" in e[1] else ast.Sub(), K(1))]
        if k == "throw":
            return [ast.Raise(CALL("RuntimeError"), None)]
        if k == "bin" and e[1] == ",":
            return self.effect(e[2]) + self.effect(e[3])
        if k == "bin" and e[1] in ("&&", "||"):
            c = self.X(e[2], pre)
            b = self.effect(e[3])
            if not b:
                return pre
            return pre + [ast.If(c if e[1] == "&&" else ast.UnaryOp(ast.Not(), c), b, [])]
        if k == "cond":
            c = self.X(e[1], pre)
            a, b = self.effect(e[2]), self.effect(e[3])
            return pre + [ast.If(c, a or [ast.Pass()], b)]
        if k == "opcall" and e[1] == "=":
            v = self.X(e[2][1], pre)
            r = peel(e[2][1])
            if r and r[0] in ("var", "mem", "idx", "opcall", "un") and not (r[0] == "opcall" and r[1] not in ("[]", "*")):
                ty = params_of(e[3]["ty"])[0] if len(e) > 3 and e[3] else ""
                if "&&" not in ty and re.search(r"vector|unordered_map|map|RPU::", ty):
                    v = CALL("copy", v)
            return pre + self.assign(self.L(e[2][0], pre), v)
        if k == "opcall" and e[1] in ("+=", "-=", "*=", "/="):
            v = self.X(e[2][1], pre)
            return pre + [ast.AugAssign(self.store(self.L(e[2][0], pre)), OPS[e[1][:-1]](), v)]
        if k == "opcall" and e[1] == "<<":
            return []
        if k in ("delete", "none", "int", "float", "var", "mem", "this", "str", "null", "bool"):
            return []
        if k == "call" and isinstance(e[1], dict) and e[1]["n"] == "swap" and len(e[2]) == 2 and not e[1].get("cls"):
            ty = params_of(e[1]["ty"])[0]
            if e[1].get("q", "").startswith("std::") or SCALAR.match(ty.rstrip("& ")):
                a, b = self.L(e[2][0], pre), self.L(e[2][1], pre)
                return pre + [ast.Assign([ast.Tuple([self.store(a), self.store(b)], ast.Store())], ast.Tuple([self.load(b), self.load(a)], ast.Load()))]
        if k == "call" and isinstance(e[1], dict) and e[1]["n"].startswith("__assert"):
            return []
        v = self.X(e, pre, discard=True)
        if v is None or isinstance(v, (ast.Name, ast.Constant)):
            return pre
        return pre + [ast.Expr(v)]

    def aug(self, e):
        pre = []
        v = self.X(e[3], pre)
        t = self.L(e[2], pre)
        op = e[1][:-1]
        kind = e[5] if len(e) > 5 else ""
        if kind == "p":
            return pre + self.assign(t, CALL("ptr_add", self.load(t), v if op == "+" else ast.UnaryOp(ast.USub(), v)))
        if kind == "fi":
            return pre + self.assign(t, CALL("to_int", ast.BinOp(self.load(t), OPS[op](), v)))
        if kind == "i" and op == "/":
            op = "//"
        return pre + [ast.AugAssign(self.store(t), OPS[op](), v)]

    def assign(self, t, v):
        if t is None:
            raise Unsupported("assignment target")
        return [ast.Assign([self.store(t)], v)]

    @staticmethod
    def store(t):
        if isinstance(t, ast.Name):
            return ast.Name(t.id, ast.Store())
        if isinstance(t, ast.Attribute):
            return ast.Attribute(t.value, t.attr, ast.Store())
        if isinstance(t, ast.Subscript):
            return ast.Subscript(t.value, t.slice, ast.Store())
        raise Unsupported("assignment target")

    @staticmethod
    def load(t):
        return t

    # -- places
    def L(self, e, pre):
        e = peel(e)
        if not e:
            return None
        k = e[0]
        if k == "var":
            n = self.var(e[1])
            return self.subst.get(n, N(n))
        if k in ("mem", "idx") or k == "un" and e[1] == "*" or k == "opcall" and e[1] in ("[]", "*", "->"):
            return self.X(e, pre)
        if k == "cond":
            return None
        if k == "asg":
            pre += self.effect(e)
            return self.L(e[1], pre)
        if k in ("call", "mcall"):
            v = self.X(e, pre)
            return ast.Attribute(v, "ref__", ast.Load()) if isinstance(v, ast.Call) else v
        return None

    # -- expressions
    def X(self, e, pre, discard=False):
        if not isinstance(e, list) or not e:
            return K(None)
        k = e[0]
        if k == "cast":
            c = e[4] if len(e) > 4 else ""
            v = self.X(e[2], pre)
            if c == "fi":
                return CALL("to_int", v)
            if c == "pb":
                return ast.Compare(v, [ast.IsNot()], [K(None)])
            if c == "nb":
                return v if isinstance(v, (ast.Compare, ast.BoolOp)) or isinstance(v, ast.UnaryOp) and isinstance(v.op, ast.Not) else ast.Compare(v, [ast.NotEq()], [K(0)])
            return v
        if k == "defarg":
            return self.X(e[1], pre)
        if k == "int":
            try:
                return K(int(e[1]))
            except ValueError:
                return N(e[1])
        if k == "float":
            v = float(e[1])
            return K(int(v) if v == int(v) and abs(v) < 1e15 else v)
        if k == "bool":
            return K(bool(e[1]))
        if k == "str":
            return K(e[1])
        if k in ("null", "none"):
            return K(None)
        if k == "zero":
            return K(0)
        if k == "enum":
            p = e[1].split("::")
            return ast.Attribute(N(pyid(p[-2])), pyid(p[-1]), ast.Load()) if len(p) > 1 else N(p[-1])
        if k == "this":
            return N("self")
        if k == "gvar":
            return N(pyid(e[1].split("::")[-1]))
        if k == "var":
            n = self.var(e[1])
            return self.subst.get(n, N(n))
        if k == "fn":
            return N(self.names.callee(e[1]))
        if k == "mem":
            if peel(e[1]) == ["this"]:
                return ast.Attribute(N("self"), pyid(e[2]), ast.Load())
            return ast.Attribute(self.X(e[1], pre), pyid(e[2]), ast.Load())
        if k == "idx":
            return self.sub(e[1], self.X(e[2], pre), pre)
        if k == "un":
            return self.unary(e, pre)
        if k == "bin":
            return self.binary(e, pre)
        if k == "cond":
            c = self.X(e[1], pre)
            pa, pb = [], []
            a, b = self.X(e[2], pa), self.X(e[3], pb)
            if pa or pb:
                t = self.tmp()
                pre.append(ast.If(c, pa + [ast.Assign([ast.Name(t, ast.Store())], a)], pb + [ast.Assign([ast.Name(t, ast.Store())], b)]))
                return N(t)
            return self.minmax(c, a, b) or ast.IfExp(c, a, b)
        if k in ("asg", "aug"):
            pre += self.effect(e)
            return self.load(self.L(e[1] if k == "asg" else e[2], pre))
        if k == "opcall":
            return self.opcall(e, pre)
        if k == "call":
            return self.call(e, pre, discard)
        if k == "mcall":
            return self.mcall(e, pre, discard)
        if k == "icall":
            return ast.Call(self.X(e[1], pre), [self.X(a, pre) for a in e[2]], [])
        if k == "new":
            if e[3] in ("copy", "move") and len(e[2]) == 1:
                v = self.X(e[2][0], pre)
                r = peel(e[2][0])
                if e[3] == "copy" and r and r[0] in ("var", "mem", "idx", "opcall", "un") and re.search(r"vector|RPU::|map", e[1]):
                    return CALL("copy", v)
                return v
            if re.search(r"basic_string<|std::string", e[1]) and len(e[2]) >= 1:
                return self.X(e[2][0], pre)
            a = [self.X(x, pre) for x in e[2] if peel(x) and peel(x)[0] != "none"]
            a = [x for x, y in zip(a, e[2]) if not (isinstance(y, list) and y and y[0] == "defarg" and "allocator" in json.dumps(y))]
            if len(a) == 1 and re.search(r"unique_ptr|shared_ptr|function<", e[1]):
                return a[0]
            return CALL("make_" + ident(e[1]), *a)
        if k == "heapnew":
            sub = peel(e[2]) if e[2] else None
            a = [self.X(x, pre) for x in sub[2]] if sub and sub[0] in ("new", "init") and len(sub) > 2 else []
            if len(e) > 3 and e[3]:
                a.append(self.X(e[3], pre))
            return CALL("make_" + ident(e[1]), *a)
        if k == "init":
            return ast.List([self.X(x, pre) for x in e[2]], ast.Load())
        if k == "throw":
            pre.append(ast.Raise(CALL("RuntimeError"), None))
            return K(None)
        if k == "lambda":
            return self.lam(e)
        if k == "method":
            return ast.Attribute(self.X(e[1], pre), pyid(e[2]["n"]), ast.Load())
        if k == "delete":
            return K(None)
        if k == "other" and len(e) == 3:
            return self.X(e[2], pre)
        if k == "other":
            return CALL("op_" + ident(str(e[1])), *[self.X(x, pre) for x in e[2:]])
        raise Unsupported("expression " + k)

    def lam(self, e):
        raise Unsupported("lambda")

    @staticmethod
    def minmax(c, a, b):
        if isinstance(c, ast.Compare) and len(c.ops) == 1:
            l, r = ast.dump(c.left), ast.dump(c.comparators[0])
            x, y = ast.dump(a), ast.dump(b)
            small = isinstance(c.ops[0], (ast.Lt, ast.LtE))
            if not small and not isinstance(c.ops[0], (ast.Gt, ast.GtE)):
                return None
            if (l, r) == (x, y):
                return CALL("min" if small else "max", a, b)
            if (l, r) == (y, x):
                return CALL("max" if small else "min", a, b)
        return None

    def sub(self, base, i, pre):
        b = self.X(base, pre)
        return self.index(b, i)

    @staticmethod
    def index(b, i):
        while isinstance(b, ast.Call) and isinstance(b.func, ast.Name) and b.func.id == "ptr_add":
            off = b.args[1]
            i = off if isinstance(i, ast.Constant) and i.value == 0 else ast.BinOp(off, ast.Add(), i)
            b = b.args[0]
        return ast.Subscript(b, i, ast.Load())

    def unary(self, e, pre):
        op = e[1]
        if op in ("++", "--", "post++", "post--"):
            t = self.L(e[2], pre)
            if op.startswith("post"):
                old = self.tmp()
                pre.append(ast.Assign([ast.Name(old, ast.Store())], self.load(t)))
                pre += self.effect(["un", op[4:], e[2]] + e[3:])
                return N(old)
            pre += self.effect(e)
            return self.load(t)
        if op == "*":
            if peel(e[2]) == ["this"]:
                return N("self")
            return self.sub(e[2], K(0), pre)
        if op == "&":
            v = self.X(e[2], pre)
            if isinstance(v, ast.Subscript):
                return v.value if isinstance(v.slice, ast.Constant) and v.slice.value == 0 else CALL("ptr_add", v.value, v.slice)
            return v
        v = self.X(e[2], pre)
        if op == "!":
            return ast.UnaryOp(ast.Not(), v)
        if op == "-":
            return K(-v.value) if isinstance(v, ast.Constant) and isinstance(v.value, (int, float)) else ast.UnaryOp(ast.USub(), v)
        if op == "~":
            return ast.UnaryOp(ast.Invert(), v)
        return v

    def binary(self, e, pre):
        op = e[1]
        kind = e[4] if len(e) > 4 else ""
        if op == ",":
            pre += self.effect(e[2])
            return self.X(e[3], pre)
        if op in ("&&", "||"):
            a = self.X(e[2], pre)
            pb = []
            b = self.X(e[3], pb)
            if pb:
                t = self.tmp()
                yes = pb + [ast.Assign([ast.Name(t, ast.Store())], b)]
                no = [ast.Assign([ast.Name(t, ast.Store())], K(op == "||"))]
                pre.append(ast.If(a, yes, no) if op == "&&" else ast.If(a, no, yes))
                return N(t)
            kls = ast.And if op == "&&" else ast.Or
            vals = []
            for x in (a, b):
                vals += x.values if isinstance(x, ast.BoolOp) and isinstance(x.op, kls) else [x]
            return ast.BoolOp(kls(), vals)
        a, b = self.X(e[2], pre), self.X(e[3], pre)
        if op in CMP:
            if isinstance(b, ast.Constant) and b.value is None and op in ("==", "!="):
                return ast.Compare(a, [ast.Is() if op == "==" else ast.IsNot()], [b])
            if isinstance(a, ast.Constant) and a.value is None and op in ("==", "!="):
                return ast.Compare(b, [ast.Is() if op == "==" else ast.IsNot()], [a])
            return ast.Compare(a, [CMP[op]()], [b])
        if kind == "p":
            if op == "+":
                return CALL("ptr_add", a, b)
            return CALL("ptr_add", a, ast.UnaryOp(ast.USub(), b))
        if kind == "i" and op == "/":
            op = "//"
        if op not in OPS:
            raise Unsupported("operator " + op)
        return ast.BinOp(a, OPS[op](), b)

    def opcall(self, e, pre):
        op, a = e[1], e[2]
        if op == "[]":
            return ast.Subscript(self.X(a[0], pre), self.X(a[1], pre), ast.Load())
        if op in ("*", "->") and len(a) == 1:
            return self.X(a[0], pre)
        if op in ("=", "+=", "-=", "*=", "/="):
            pre += self.effect(e)
            return self.load(self.L(a[0], pre))
        if op in ("++", "--"):
            t = self.L(a[0], pre)
            pre.append(ast.AugAssign(self.store(t), ast.Add() if op == "++" else ast.Sub(), K(1)))
            return self.load(t)
        vs = [self.X(x, pre) for x in a]
        if op in CMP and len(vs) == 2:
            return ast.Compare(vs[0], [CMP[op]()], [vs[1]]) if not (isinstance(vs[1], ast.Constant) and vs[1].value is None) else \
                ast.Compare(vs[0], [ast.Is() if op == "==" else ast.IsNot()], [vs[1]])
        if op in OPS and len(vs) == 2:
            return ast.BinOp(vs[0], OPS[op](), vs[1])
        if op == "()":
            return ast.Call(vs[0], vs[1:], [])
        if op == "!":
            return ast.UnaryOp(ast.Not(), vs[0])
        if op == "-" and len(vs) == 1:
            return ast.UnaryOp(ast.USub(), vs[0])
        return CALL("op_" + "_".join(str(ord(c)) for c in op), *vs)

    def finish(self, call, c, args, argv, pre, discard):
        """A call that may hand values back through its parameters."""
        outs = []
        for i in outs_of(c["ty"]) if isinstance(c, dict) and c.get("ty") else []:
            if i < len(args):
                t = self.L(args[i], pre)
                if t is not None:
                    outs.append(t)
                else:
                    outs.append(N(self.tmp()))
        if not outs:
            return call
        void = c["ty"].split("(")[0].strip() == "void"
        targets = [self.store(t) for t in outs]
        if void:
            pre.append(ast.Assign([targets[0] if len(targets) == 1 else ast.Tuple(targets, ast.Store())], call))
            return None
        t = self.tmp()
        pre.append(ast.Assign([ast.Tuple([ast.Name(t, ast.Store())] + targets, ast.Store())], call))
        return N(t)

    def call(self, e, pre, discard):
        c, args = e[1], e[2]
        n = c["n"] if isinstance(c, dict) else "?"
        q = c.get("q", "") if isinstance(c, dict) else ""
        vs = [self.X(a, pre) for a in args]
        ts = [self.X(v, pre) for _, v in c.get("targs", ())] if isinstance(c, dict) and q.startswith("RPU") else []
        if n in ("move", "forward", "ref", "as_const") and len(vs) == 1 and not c.get("cls"):
            return vs[0]
        if n in MATH:
            n = MATH[n]
        if n in ("max", "min") and len(vs) == 2:
            return CALL(n, *vs)
        if n in ("abs", "exp", "log", "sqrt", "floor", "round", "ceil", "isnan", "pow", "log2", "log10", "tanh", "sin", "cos") and not c.get("cls") and not q.startswith("RPU"):
            if n == "pow" and len(vs) == 2 and isinstance(vs[1], ast.Constant) and vs[1].value == 2:
                return ast.BinOp(vs[0], ast.Pow(), vs[1])
            return CALL("m_" + n if n != "abs" else "abs", *vs)
        if n.startswith("make_") and n in ("make_unique", "make_shared"):
            return CALL(n + "_" + ident(c["ty"].split("(")[0]), *vs)
        if c.get("cls"):         # static method
            return self.finish(ast.Call(ast.Attribute(N(short(c["cls"])), self.names.callee(c), ast.Load()), ts + vs, []), c, args, vs, pre, discard)
        return self.finish(CALL(self.names.callee(c), *(ts + vs)), c, args, vs, pre, discard)

    def mcall(self, e, pre, discard):
        c, args = e[2], e[3]
        n = c["n"]
        o = self.X(e[1], pre)
        std = not c.get("cls", "").startswith("RPU")
        if n == "operator bool":
            return ast.Compare(o, [ast.IsNot()], [K(None)])
        if n.startswith("operator ") and not args:
            return o
        vs = [self.X(a, pre) for a in args]
        if std:
            if n == "size" and not vs:
                return CALL("len", o)
            if n == "empty" and not vs:
                return ast.Compare(CALL("len", o), [ast.Eq()], [K(0)])
            if n in ("data", "get") and not vs:
                return o
            if n in ("at",) and len(vs) == 1:
                return ast.Subscript(o, vs[0], ast.Load())
            if n == "back" and not vs:
                return ast.Subscript(o, ast.BinOp(CALL("len", o), ast.Sub(), K(1)), ast.Load())
            if n == "front" and not vs:
                return ast.Subscript(o, K(0), ast.Load())
            if n in ("push_back", "emplace_back"):
                n = "append"
            if n == "release" and not vs:
                return o
            if n == "reset" and discard and len(vs) <= 1:
                pre += self.assign(self.L(e[1], pre), vs[0] if vs else K(None))
                return None
            if n == "swap" and discard and len(vs) == 1:
                a, b = self.L(e[1], pre), self.L(args[0], pre)
                pre.append(ast.Assign([ast.Tuple([self.store(a), self.store(b)], ast.Store())], ast.Tuple([self.load(b), self.load(a)], ast.Load())))
                return None
            if n == "str" or n == "c_str":
                return o
        name = self.names.callee(c)
        if c.get("qual") and peel(e[1]) == ["this"]:
            return self.finish(ast.Call(ast.Attribute(N(short(c["cls"])), name, ast.Load()), [N("self")] + vs, []), c, args, vs, pre, discard)
        return self.finish(ast.Call(ast.Attribute(o, name, ast.Load()), vs, []), c, args, vs, pre, discard)


class Fills(ast.NodeTransformer):
    """std::fill and std::copy over [p, p + n) or a whole vector are loops."""
    def __init__(self, body):
        self.body = body

    @staticmethod
    def extent(a, b):
        """(base, count) of the range [a, b)."""
        if isinstance(b, ast.Call) and isinstance(b.func, ast.Name) and b.func.id == "ptr_add" and ast.dump(b.args[0]) == ast.dump(a):
            return a, b.args[1]
        if all(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and not x.args for x in (a, b)) and \
                (a.func.attr, b.func.attr) in (("begin", "end"), ("cbegin", "cend")) and ast.dump(a.func.value) == ast.dump(b.func.value):
            return a.func.value, CALL("len", a.func.value)
        return None, None

    @staticmethod
    def items(e):
        """How many items are sizeof(item) * n bytes."""
        fs, out = [e], []
        while fs:
            x = fs.pop(0)
            if isinstance(x, ast.BinOp) and isinstance(x.op, ast.Mult):
                fs = [x.left, x.right] + fs
            else:
                out.append(x)
        size = [x for x in out if isinstance(x, ast.Name) and x.id == "sizeof"]
        out = [x for x in out if x not in size]
        if len(size) != 1 or not out:
            return None
        for x in out[1:]:
            out[0] = ast.BinOp(out[0], ast.Mult(), x)
        return out[0]

    def visit_Expr(self, n):
        c = n.value
        if not (isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id in ("std_fill", "std_fill_n", "std_copy", "memcpy") and len(c.args) == 3):
            return n
        if c.func.id == "memcpy":
            count = self.items(c.args[2])
            if count is None:
                return n
            c = CALL("std_copy", c.args[1], CALL("ptr_add", c.args[1], count), c.args[0])
        if c.func.id == "std_fill_n":
            (base, count), v = c.args[:2], c.args[2]
            if isinstance(base, ast.Call) and isinstance(base.func, ast.Attribute) and base.func.attr == "begin":
                base = base.func.value
        else:
            base, count = self.extent(*c.args[:2])
            v = c.args[2]
        if base is None or c.func.id != "std_copy" and any(isinstance(x, ast.Call) for x in ast.walk(v)):
            return n
        i = self.body.tmp()
        if c.func.id == "std_copy":
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == "begin":
                v = v.func.value
            base, v = v, Body.index(base, N(i))
        t = Body.index(base, N(i))
        t.ctx = ast.Store()
        f = ast.For(ast.Name(i, ast.Store()), CALL("range", count), [ast.Assign([t], v)], [])
        for x in ast.walk(f):
            if isinstance(x, (ast.stmt, ast.expr)) and not hasattr(x, "lineno"):
                x.lineno, x.col_offset, x.end_lineno, x.end_col_offset = n.lineno, 0, n.lineno, 0
        return f


class Names:
    """Names of functions that may be overloaded: fixed by the table of the reference, so that a new overload changes nothing else."""
    def __init__(self, facts, table=None):
        self.table = table if table is not None else {}
        self.map = {}
        by = {}
        for f in facts.funcs.values():
            by.setdefault((short(f["cls"]) if f.get("cls") else "", self.base(f)), []).append(f)
        tymap = {}
        for key, fs in by.items():
            fs = list({self.sig(f["ty"]): f for f in fs}.values())
            ref = dict(self.table.get("%s.%s" % key, {}))
            left = []
            for f in sorted(fs, key=lambda f: (len(f["params"]), f["ty"])):
                sig = self.sig(f["ty"])
                if sig in ref:
                    self.map[key + (sig,)] = ref.pop(sig)
                else:
                    left.append((f, sig))
            for f, sig in left:       # the signature changed: the same number of parameters, else the next
                same = [s for s in ref if len(params_of("(" + s + ")")) == len(f["params"])] or ([] if not ref else list(ref) if len(left) == 1 == len(ref) else [])
                if same:
                    self.map[key + (sig,)] = ref.pop(same[0])
                elif not self.table.get("%s.%s" % key) and table is not None:
                    self.map[key + (sig,)] = key[1]
                else:
                    self.map[key + (sig,)] = "%s__%d" % (key[1], len(f["params"])) if table is not None else None
        self.free = {pyid(f["n"]) for f in facts.funcs.values() if not f.get("cls")}
        # global names by signature, for the members that are only declared
        if table is None:
            # the reference itself: one name per signature of all methods with that name, so that overriding methods share it
            sigs = {}
            for (c, n, sig) in self.map:
                sigs.setdefault((bool(c), n), set()).add(sig)
            for (c, n, sig) in list(self.map):
                ss = sorted(sigs[bool(c), n], key=lambda s: (len(params_of("(" + s + ")")), s))
                if n in ("ctor", "copyctor", "movector"):
                    ss = sorted((s for (c2, n2, s) in self.map if (c2, n2) == (c, n)), key=lambda s: (len(params_of("(" + s + ")")), s))
                self.map[c, n, sig] = n if len(ss) == 1 else "%s__%d" % (n, ss.index(sig) + 1)
            for (c, n, sig), py in self.map.items():
                self.table.setdefault("%s.%s" % (c, n), {})[sig] = py
        self.bysig = {}
        for (c, n, sig), py in self.map.items():
            self.bysig.setdefault((n, sig), py)

    @staticmethod
    def sig(ty):
        return ", ".join(params_of(ty))

    @staticmethod
    def base(f):
        k = f.get("kind")
        if k in ("ctor", "copyctor", "movector", "dtor"):
            return k
        return {"copyassign": "copyassign", "moveassign": "moveassign"}.get(k) or pyid(f["n"])

    def of(self, f):
        return self.map[short(f["cls"]) if f.get("cls") else "", self.base(f), self.sig(f["ty"])]

    def callee(self, c):
        if not isinstance(c, dict):
            return "unknown_function"
        n = pyid(c["n"])
        sig = self.sig(c.get("ty", ""))
        if c.get("cls"):
            r = self.map.get((short(c["cls"]), n, sig))
            return r or self.bysig.get((n, sig)) or n
        r = self.map.get(("", n, sig))
        if r:
            return r
        q = c.get("q", "")
        return ("std_" + n) if q.startswith("std::") else n

    def ctor(self, cls, e):
        t = {k: v for k, v in self.map.items() if k[0] == cls and k[1] == "ctor" and len(params_of("(" + k[2] + ")")) == len(e[2])}
        if e[3] in ("copy", "move"):
            return "copyctor" if e[3] == "copy" else "movector"
        return sorted(t.values())[0] if t else "ctor"


def integral(ty):
    """0: not an integer, 1: never negative, 2: an integer."""
    ty = re.sub(r"^const |&$", "", ty.strip()).strip()
    if re.fullmatch(r"(unsigned|unsigned int|unsigned short|unsigned long|unsigned long long|size_t|std::size_t|uint\d+_t)", ty):
        return 1
    return 2 if re.fullmatch(r"(int|short|long|long long|int\d+_t|RPU::chop_t|chop_t)", ty) else 0


class CFunc(Func):
    def __init__(self, name, node, module, cls, fact):
        Func.__init__(self, name, node, module, cls)
        self.fact = fact

    def where(self, node=None):
        return "%s:%d" % (self.fact.get("file", self.module.rel), getattr(node or self.node, "lineno", self.fact.get("line", 1)))


class CxxProgram(Program):
    def __init__(self, facts, table=None):
        self.modules = {}
        self._cls_memo, self._func_memo = {}, {}
        self.facts = facts
        self.digest = ""
        self.names = Names(facts, table)
        self.unsupported = []
        empty = ast.parse("")

        def module(path):
            stem = os.path.basename(path).rsplit(".", 1)[0]
            name = "rpucuda." + pyid(stem)
            if name not in self.modules:
                self.modules[name] = Module(name, path, path, empty, "", False)
            return self.modules[name]
        em = Module("rpucuda.enums", "", "", empty, "", False)
        self.modules[em.name] = em
        for n, o in facts.enums.items():
            s = pyid(n.split("::")[-1])
            node = ast.parse("class %s(Enum):\n    pass" % s).body[0]
            c = Class(s, node, em)
            c.bases = ["Enum"]
            for v in o["vals"]:
                c.attrs[pyid(v)] = (ast.Constant(v), None)
            em.classes[s] = c
        recs = {}
        for n, o in facts.records.items():
            if "<" in n and "<float>" not in n:
                continue
            m = module(o["file"])
            s = pyid(short(n))
            if s in recs:
                continue
            node = ast.parse("class %s:\n    pass" % s).body[0]
            node.lineno = o["line"]
            c = recs[s] = m.classes[s] = Class(s, node, m)
            c.rec = o
            b = Body(self.names, {"params": [], "ty": "void ()", "kind": "", "body": [], "n": s})
            for fn, ty, init, line in o["fields"]:
                if init is not None:
                    try:
                        pre = []
                        v = b.X(init, pre)
                        if not pre:
                            c.attrs[pyid(fn)] = (ast.fix_missing_locations(ast.copy_location(v, ast.Constant(0, lineno=line, col_offset=0))), None)
                            for x in ast.walk(v):
                                x.lineno, x.col_offset = line, 0
                    except Unsupported:
                        pass
        for s, c in recs.items():
            c.bases = [recs[short(x)] for x in c.rec.get("bases", []) if short(x) in recs]
        self.recs = recs
        self.constness = {}
        for f in sorted(facts.funcs.values(), key=lambda f: "double" in f["ty"] and not f.get("cls")):
            if f["kind"] in ("dtor",) or f["n"] in ("make_unique",):
                continue
            cls = recs.get(pyid(short(f["cls"]))) if f.get("cls") else None
            if f.get("cls") and cls is None:
                continue
            m = cls.module if cls else module(f["file"])
            try:
                node = Body(self.names, f).func()
            except Unsupported as exc:
                self.unsupported.append((f.get("cls", ""), f["n"], str(exc)))
                continue
            table = cls.methods if cls else m.functions
            cf = CFunc(node.name, node, m, cls, f)
            table.setdefault(node.name, cf)
            if f["kind"] == "":
                pure = bool(f.get("const")) and not outs_of(f["ty"]) and not self.writes(f["ty"]) if f.get("cls") and not f.get("static") else not self.writes(f["ty"])
                self.constness[node.name] = self.constness.get(node.name, True) and pure
        # names of fields, parameters and functions that are integers wherever they are declared (and those that are never negative)
        kinds = {}
        for o in facts.records.values():
            for fn, ty, init, line in o["fields"]:
                kinds.setdefault(pyid(fn), set()).add(integral(ty))
        for f in facts.funcs.values():
            for n, ty in f["params"]:
                kinds.setdefault(pyid(n), set()).add(integral(ty))
            kinds.setdefault(self.names.of(f) if f["kind"] == "" else "", set()).add(integral(f["ty"].split("(")[0].strip()))
        self.ints = {n: max(ks) for n, ks in kinds.items() if ks <= {1, 2} and n}
        # methods only declared here (pure virtual) do not matter
        for m in self.modules.values():
            for m2 in self.modules.values():
                if m2 is not m:
                    for n in m2.functions:
                        m.imports.setdefault(n, (m2.name, n))
                    for n in m2.classes:
                        m.imports.setdefault(n, (m2.name, n))
        self.all_classes = [c for m in self.modules.values() for c in m.classes.values()]
        self.all_funcs = []
        for m in self.modules.values():
            self.all_funcs += list(m.functions.values())
            for c in m.classes.values():
                self.all_funcs += list(c.methods.values())

    def find_cls_short(self, name):
        return self.recs.get(name)

    @staticmethod
    def writes(ty):
        for p in params_of(ty):
            if p.endswith("&") and not p.startswith("const "):
                return True
            if p.endswith("*") and not p.startswith("const ") or p.endswith("**"):
                return True
            if "unique_ptr" in p or "vector" in p and p.endswith("&") and not p.startswith("const"):
                return True
        return False


def load_table():
    if not os.path.exists(NAMES):
        return None
    with open(NAMES) as fh:
        return json.load(fh)
