"""stress.py SPECFILES [-o only,…] [-k kinds] [-m] [-j N]: how the reference agreement reacts to edits of the code, in memory.

Without -m: behaviour-preserving rewrites of every specified function (nothing may be reported).
With -m: small behaviour-changing edits (what survives is listed).  A development tool, not a check."""
import ast, copy, sys, os, time, itertools, builtins
sys.path.insert(0, __file__.rsplit("/", 2)[0])
sys.setrecursionlimit(20000)
from sa.report import Ctx
from sa.equiv import Suite
from sa.interp import Limit
from sa.program import AnalysisBroken
import multiprocessing as mp

CXX = "cxx" in sys.argv


def bodies(n):
    for x in ast.walk(n):
        for fld in ("body", "orelse", "finalbody"):
            b = getattr(x, fld, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield b


def names(n, ctx):
    return {x.id for s in (n if isinstance(n, list) else [n]) for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ctx)}


def stored(n):
    return names(n, (ast.Store, ast.Del))


def loaded(n):
    out = names(n, ast.Load)
    for s in (n if isinstance(n, list) else [n]):
        for x in ast.walk(s):
            if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
                out.add(x.target.id)
    return out


def fn_of(node):
    return node.name


# ---- behaviour-preserving
def r_rename(fn):
    args = {a.arg for a in ast.walk(fn.args) if isinstance(a, ast.arg)}
    loc = stored(fn.body) - args
    for x in ast.walk(fn):
        if isinstance(x, (ast.Global, ast.Nonlocal)):
            loc -= set(x.names)
        if isinstance(x, ast.ExceptHandler) and x.name:
            loc.discard(x.name)
        if isinstance(x, ast.FunctionDef) and x is not fn:
            return
    if not loc:
        return
    f = copy.deepcopy(fn)
    for x in ast.walk(f):
        if isinstance(x, ast.Name) and x.id in loc:
            x.id = "my_" + x.id
    yield "rename", f


def r_invert(fn):
    f = copy.deepcopy(fn)
    n = 0
    for x in ast.walk(f):
        if isinstance(x, ast.If):
            x.test = ast.UnaryOp(ast.Not(), x.test)
            x.body, x.orelse = (x.orelse or [ast.Pass()]), x.body
            n += 1
        if isinstance(x, ast.IfExp):
            x.test = ast.UnaryOp(ast.Not(), x.test)
            x.body, x.orelse = x.orelse, x.body
            n += 1
    if n:
        yield "invert", f


def ends(b):
    return b and isinstance(b[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


def r_guard(fn):
    """if c: …return; rest -> if c: …return else: rest, and back."""
    f = copy.deepcopy(fn)
    n = 0
    for b in list(bodies(f)):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and ends(s.body) and not s.orelse and b[i + 1:]:
                s.orelse = b[i + 1:]
                del b[i + 1:]
                n += 1
                break
    if n:
        yield "guard->else", f
    f = copy.deepcopy(fn)
    n = 0
    for b in list(bodies(f)):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and ends(s.body) and s.orelse:
                rest = list(s.orelse)
                del s.orelse[:]
                b[i + 1:i + 1] = rest
                n += 1
                break
    if n:
        yield "else->guard", f


def r_temps(fn):
    """Name the arguments and the value of each call statement / assignment / return first."""
    f = copy.deepcopy(fn)
    n = 0
    for b in list(bodies(f)):
        i = 0
        while i < len(b):
            s = b[i]
            new = []
            if isinstance(s, (ast.Expr, ast.Assign, ast.Return)) and isinstance(s.value, ast.Call):
                for k, a in enumerate(s.value.args):
                    if isinstance(a, (ast.Call, ast.BinOp, ast.Attribute, ast.Subscript, ast.UnaryOp)) and not any(
                            isinstance(z, (ast.Call, ast.Starred)) for z in s.value.args[:k]):
                        nm = "tmp_%d" % n
                        n += 1
                        new.append(ast.Assign([ast.Name(nm, ast.Store())], a))
                        s.value.args[k] = ast.Name(nm, ast.Load())
            if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Constant, ast.Name)):
                nm = "tmp_%d" % n
                n += 1
                new.append(ast.Assign([ast.Name(nm, ast.Store())], s.value))
                s.value = ast.Name(nm, ast.Load())
            if isinstance(s, ast.If) and not isinstance(s.test, ast.Name):
                nm = "tmp_%d" % n
                n += 1
                new.append(ast.Assign([ast.Name(nm, ast.Store())], s.test))
                s.test = ast.Name(nm, ast.Load())
            b[i:i] = new
            i += len(new) + 1
    if n:
        yield "temps", f


def r_noop(fn):
    f = copy.deepcopy(fn)
    for b in list(bodies(f)):
        k = 1 if isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) else 0
        b.insert(k, ast.parse("_unused = 0").body[0])
        b.insert(k, ast.Pass())
    yield "noop", f


def r_ifexp(fn):
    f = copy.deepcopy(fn)
    n = 0
    for b in list(bodies(f)):
        for i, s in enumerate(b):
            if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.IfExp):
                v = s.value
                t, e = copy.copy(s), copy.copy(s)
                t.value, e.value = v.body, v.orelse
                b[i] = ast.If(v.test, [t], [e])
                n += 1
    if n:
        yield "ifexp->if", f
    f = copy.deepcopy(fn)
    n = 0
    for b in list(bodies(f)):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1 and type(s.body[0]) is type(s.orelse[0]):
                t, e = s.body[0], s.orelse[0]
                if isinstance(t, ast.Return) and t.value is not None and e.value is not None:
                    b[i] = ast.Return(ast.IfExp(s.test, t.value, e.value))
                    n += 1
                elif isinstance(t, ast.Assign) and ast.dump(t.targets[0]) == ast.dump(e.targets[0]):
                    b[i] = ast.Assign(t.targets, ast.IfExp(s.test, t.value, e.value))
                    n += 1
    if n:
        yield "if->ifexp", f


def r_loop(fn):
    f = copy.deepcopy(fn)
    n = 0
    for x in ast.walk(f):
        if isinstance(x, ast.For) and isinstance(x.iter, ast.Call) and isinstance(x.iter.func, ast.Name) and x.iter.func.id == "enumerate" \
                and isinstance(x.target, ast.Tuple) and len(x.iter.args) == 1 and isinstance(x.iter.args[0], (ast.Name, ast.Attribute)):
            i, v = x.target.elts
            seq = x.iter.args[0]
            if not isinstance(i, ast.Name):
                continue
            x.target = i
            x.iter = ast.parse("range(len(X))", mode="eval").body
            x.iter.args[0].args[0] = seq
            x.body.insert(0, ast.Assign([v], ast.Subscript(copy.deepcopy(seq), ast.Name(i.id, ast.Load()), ast.Load())))
            n += 1
    if n:
        yield "enumerate->range", f
    f = copy.deepcopy(fn)
    n = 0
    for x in ast.walk(f):
        if isinstance(x, ast.For) and isinstance(x.target, ast.Name) and isinstance(x.iter, (ast.Name, ast.Attribute)):
            v = x.target
            x.target = ast.Tuple([ast.Name("idx_%d" % n, ast.Store()), v], ast.Store())
            x.iter = ast.Call(ast.Name("enumerate", ast.Load()), [x.iter], [])
            n += 1
    if n and not CXX:
        yield "for->enumerate", f
    for form in ("counter", "while"):
        f = copy.deepcopy(fn)
        n = 0
        for b in list(bodies(f)):
            for i, x in enumerate(b):
                if not isinstance(x, ast.For) or x.orelse or any(isinstance(y, (ast.Continue, ast.Break)) for y in ast.walk(x)):
                    continue
                it = x.iter
                kind = it.func.id if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) else None
                if kind == "enumerate" and isinstance(x.target, ast.Tuple) and len(it.args) == 1 and isinstance(x.target.elts[0], ast.Name):
                    c, v, seq = x.target.elts[0].id, x.target.elts[1], it.args[0]
                elif kind == "range" and len(it.args) == 1 and isinstance(x.target, ast.Name) and form == "while":
                    c, v, seq = x.target.id, None, None
                else:
                    continue
                if c in {m for y in x.body for m in stored(y)} or isinstance(seq, ast.Call):
                    continue
                inc = ast.parse("%s += 1" % c).body
                ini = ast.parse("%s = 0" % c).body
                if form == "counter":
                    x.iter, x.target = seq, v
                    x.body += inc
                    b[i:i + 1] = ini + [x]
                else:
                    bound = it.args[0] if seq is None else ast.Call(ast.Name("len", ast.Load()), [copy.deepcopy(seq)], [])
                    w = ast.While(ast.Compare(ast.Name(c, ast.Load()), [ast.Lt()], [bound]), x.body + inc, [])
                    if seq is not None:
                        w.body.insert(0, ast.Assign([v], ast.Subscript(copy.deepcopy(seq), ast.Name(c, ast.Load()), ast.Load())))
                    b[i:i + 1] = ini + [w]
                n += 1
                break
        if n:
            yield "for->" + form, f
    f = copy.deepcopy(fn)
    n = 0
    for b in list(bodies(f)):
        for i, s in enumerate(b):
            if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.ListComp) and len(s.value.generators) == 1:
                g = s.value.generators[0]
                nm = "acc_%d" % n
                inner = ast.Expr(ast.Call(ast.Attribute(ast.Name(nm, ast.Load()), "append", ast.Load()), [s.value.elt], []))
                body = inner
                for c in reversed(g.ifs):
                    body = ast.If(c, [body], [])
                b[i:i + 1] = [ast.Assign([ast.Name(nm, ast.Store())], ast.List([], ast.Load())), ast.For(g.target, g.iter, [body], [])]
                s.value = ast.Name(nm, ast.Load())
                b.insert(i + 2, s)
                n += 1
                break
    if n:
        yield "comp->loop", f
    f = copy.deepcopy(fn)
    n = 0
    for x in ast.walk(f):
        if isinstance(x, ast.Call):
            for k, a in enumerate(x.args):
                if isinstance(a, ast.GeneratorExp):
                    x.args[k] = ast.ListComp(a.elt, a.generators)
                    n += 1
    if n:
        yield "gen->list", f


def r_nest(fn):
    f = copy.deepcopy(fn)
    n = 0
    for x in list(ast.walk(f)):
        if isinstance(x, ast.If) and isinstance(x.test, ast.BoolOp) and isinstance(x.test.op, ast.And) and not x.orelse:
            a, rest = x.test.values[0], x.test.values[1:]
            x.test = a
            x.body = [ast.If(rest[0] if len(rest) == 1 else ast.BoolOp(ast.And(), rest), x.body, [])]
            n += 1
    if n:
        yield "and->nest", f
    f = copy.deepcopy(fn)
    n = 0
    for x in list(ast.walk(f)):
        if isinstance(x, ast.If) and not x.orelse and len(x.body) == 1 and isinstance(x.body[0], ast.If) and not x.body[0].orelse:
            x.test = ast.BoolOp(ast.And(), [x.test, x.body[0].test])
            x.body = x.body[0].body
            n += 1
    if n:
        yield "nest->and", f


def r_cmp(fn):
    f = copy.deepcopy(fn)
    n = 0
    flip = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}

    class V(ast.NodeTransformer):
        def visit_Compare(self, x):
            nonlocal n
            self.generic_visit(x)
            if len(x.ops) == 1 and type(x.ops[0]) in flip:
                n += 1
                return ast.Compare(x.comparators[0], [flip[type(x.ops[0])]()], [x.left])
            if len(x.ops) == 1 and isinstance(x.ops[0], (ast.IsNot, ast.NotIn)):
                n += 1
                return ast.UnaryOp(ast.Not(), ast.Compare(x.left, [ast.Is() if isinstance(x.ops[0], ast.IsNot) else ast.In()], x.comparators))
            return x

        def visit_BoolOp(self, x):
            nonlocal n
            self.generic_visit(x)
            if len(x.values) == 2:
                n += 1
                return ast.UnaryOp(ast.Not(), ast.BoolOp(ast.Or() if isinstance(x.op, ast.And) else ast.And(), [ast.UnaryOp(ast.Not(), v) for v in x.values])) \
                    if incond(x) else x
            return x
    cond = set()
    for x in ast.walk(f):
        if isinstance(x, (ast.If, ast.IfExp)):
            cond.add(id(x.test))

    def incond(x):
        return id(x) in cond
    f = V().visit(f)
    if n:
        yield "cmp", f


def pure(e):
    return not any(isinstance(x, (ast.Call, ast.Yield, ast.Await, ast.NamedExpr, ast.Attribute, ast.Subscript)) for x in ast.walk(e))


def r_reorder(fn):
    """Swap adjacent assignments of locals / of different attributes of self, when neither uses what the other defines and at most one has a call."""
    def simple(s):
        if not (isinstance(s, ast.Assign) and len(s.targets) == 1):
            return False
        t = s.targets[0]
        return isinstance(t, ast.Name) or (isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self")

    def uses(s):
        return {ast.dump(x).replace("Store()", "Load()") for x in ast.walk(s.value) if isinstance(x, (ast.Name, ast.Attribute))}

    def hascall(s):
        return any(isinstance(x, ast.Call) for x in ast.walk(s.value))
    f = copy.deepcopy(fn)
    n = 0
    for b in list(bodies(f)):
        i = 0
        while i + 1 < len(b):
            s, t = b[i], b[i + 1]
            if simple(s) and simple(t):
                ds, dt = (ast.dump(z.targets[0]).replace("Store()", "Load()") for z in (s, t))
                if ds != dt and ds not in uses(t) and dt not in uses(s) and not (hascall(s) and hascall(t)) \
                        and not (hascall(s) and isinstance(t.targets[0], ast.Attribute)) and not (hascall(t) and isinstance(s.targets[0], ast.Attribute)) \
                        and not (isinstance(s.targets[0], ast.Name) and hascall(t) and False):
                    # a call may change what an attribute read sees
                    if not ((hascall(s) and any(isinstance(x, ast.Attribute) for x in ast.walk(t.value))) or
                            (hascall(t) and any(isinstance(x, ast.Attribute) for x in ast.walk(s.value)))):
                        b[i], b[i + 1] = t, s
                        n += 1
                        i += 1
            i += 1
    if n:
        yield "reorder", f


def r_helper(fn, method, cls, module):
    """Extract runs of statements of the body into a helper method or function; yields (kind, fn, helper)."""
    argn = {a.arg for a in ast.walk(fn.args) if isinstance(a, ast.arg)}
    selfn = fn.args.args[0].arg if method and fn.args.args else None
    if any(isinstance(x, (ast.Lambda, ast.FunctionDef, ast.Yield, ast.Global)) for s in fn.body for x in ast.walk(s)):
        return
    if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "super" for x in ast.walk(fn)):
        pass
    k = 1 if isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else 0
    N = len(fn.body)
    spans = {(k, N), (k, (k + N) // 2), ((k + N) // 2, N), (k + 1, N - 1), (k, k + 1), (N - 1, N), (k + 1, k + 3)}
    for i, j in sorted(spans):
        if not (k <= i < j <= N):
            continue
        block = fn.body[i:j]
        hasret = any(isinstance(x, ast.Return) for s in block for x in ast.walk(s))
        if hasret and j != N:
            continue
        local = {(a.asname or a.name).split(".")[0] for x in ast.walk(fn) if isinstance(x, (ast.Import, ast.ImportFrom)) for a in x.names}
        if local & loaded(block) and not any(isinstance(x, (ast.Import, ast.ImportFrom)) for x in block):
            continue
        if local & loaded(fn.body[j:]) and any(isinstance(x, (ast.Import, ast.ImportFrom)) for x in block):
            continue
        if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "super" for s in block for x in ast.walk(s)) and not method:
            continue
        before = argn | stored(fn.body[:i])
        ins = sorted((loaded(block) & before) - {selfn})
        outs = sorted(stored(block) & loaded(fn.body[j:]))
        if set(outs) - before:
            # must be definitely assigned: only take unconditional top-level assignments
            top = {n for s in block if isinstance(s, (ast.Assign, ast.AnnAssign)) for n in stored(s)}
            if set(outs) - before - top:
                continue
        ins = sorted(set(ins) | (set(outs) & before) - {selfn})
        f = copy.deepcopy(fn)
        hn = "_helper_extracted"
        hbody = copy.deepcopy(block)
        if outs:
            hbody.append(ast.Return(ast.Tuple([ast.Name(o, ast.Load()) for o in outs], ast.Load()) if len(outs) > 1 else ast.Name(outs[0], ast.Load())))
        hargs = ([selfn] if method else []) + ins
        helper = ast.parse("def %s(%s): pass" % (hn, ", ".join(hargs))).body[0]
        helper.body = hbody
        call = ast.parse(("%s.%s" % (selfn, hn) if method else hn) + "(%s)" % ", ".join(ins), mode="eval").body
        if outs:
            st = ast.Assign([ast.Tuple([ast.Name(o, ast.Store()) for o in outs], ast.Store()) if len(outs) > 1 else ast.Name(outs[0], ast.Store())], call)
        elif hasret:
            st = ast.Return(call)
        else:
            st = ast.Expr(call)
        f.body[i:j] = [st]
        yield "helper[%d:%d/%d]" % (i, j, N), f, helper


def r_kw(fn, prog=None):
    return
    yield


REWRITES = [r_rename, r_invert, r_guard, r_temps, r_noop, r_ifexp, r_loop, r_nest, r_cmp, r_reorder]


# ---- behaviour-changing
def mutants(fn):
    total = sum(1 for _ in ast.walk(fn))
    for idx in range(total):
        k = 0
        while True:
            f = copy.deepcopy(fn)
            node = next(itertools.islice(ast.walk(f), idx, None))
            r = next(itertools.islice(mutate(node, f), k, None), None)      # the earlier ones are undone by the generator
            if r is None:
                break
            yield "%s@%s" % (r, getattr(node, "lineno", "?")), f
            k += 1


def mutate(x, f):
    def sub(obj, fld, val):
        old = obj[fld] if isinstance(obj, list) else getattr(obj, fld)
        put(obj, fld, val)
        return lambda: put(obj, fld, old)

    def put(obj, fld, val):
        if isinstance(obj, list):
            obj[fld] = val
        else:
            setattr(obj, fld, val)
    todo = []
    if isinstance(x, (ast.If, ast.IfExp)):
        todo.append(("negate", x, "test", ast.UnaryOp(ast.Not(), x.test)))
    if isinstance(x, ast.BoolOp):
        todo.append(("and/or", x, "op", ast.Or() if isinstance(x.op, ast.And) else ast.And()))
        for i in range(len(x.values)):
            todo.append(("dropcond%d" % i, x, "values", x.values[:i] + x.values[i + 1:] if len(x.values) > 2 else [x.values[1 - i]] * 2))
    if isinstance(x, ast.BinOp):
        m = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Div, ast.Pow: ast.Mult}
        if type(x.op) in m and not (isinstance(x.left, ast.Constant) and isinstance(x.left.value, str)) and not isinstance(x.right, ast.JoinedStr):
            todo.append(("binop", x, "op", m[type(x.op)]()))
    if isinstance(x, ast.Compare) and len(x.ops) == 1:
        m = {ast.Lt: ast.LtE, ast.Gt: ast.GtE, ast.LtE: ast.Lt, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
        if type(x.ops[0]) in m:
            todo.append(("cmpop", x.ops, 0, m[type(x.ops[0])]()))
    if isinstance(x, ast.Constant) and isinstance(x.value, bool):
        todo.append(("bool", x, "value", not x.value))
    elif isinstance(x, ast.Constant) and isinstance(x.value, (int, float)):
        todo.append(("const", x, "value", x.value + 1))
    for fld in ("body", "orelse"):
        b = getattr(x, fld, None)
        if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
            for i, s in enumerate(b):
                if isinstance(s, (ast.Assign, ast.AugAssign)) or (isinstance(s, ast.Expr) and isinstance(s.value, ast.Call)):
                    if isinstance(s, ast.Assign) and isinstance(s.targets[0], (ast.Name, ast.Tuple)):
                        continue
                    todo.append(("drop:" + ast.unparse(s)[:70].replace("\n", " "), b, i, ast.Pass()))
    if isinstance(x, ast.Call) and len(x.args) >= 2 and isinstance(x.args[0], (ast.Name, ast.Attribute)) and isinstance(x.args[1], (ast.Name, ast.Attribute)):
        todo.append(("swapargs", x, "args", [x.args[1], x.args[0]] + x.args[2:]))
    if isinstance(x, ast.Call) and x.keywords:
        for k in x.keywords:
            if k.arg is not None:
                todo.append(("dropkw:" + k.arg, x, "keywords", [z for z in x.keywords if z is not k]))
    if isinstance(x, ast.Attribute) and x.attr in ("in_size", "out_size"):
        todo.append(("attr", x, "attr", "in_size" if x.attr == "out_size" else "out_size"))
    for what, obj, fld, val in todo:
        undo = sub(obj, fld, val)
        yield what
        undo()


class Quiet:
    """A context that only remembers what is bad or undecided."""
    thorough = False

    def __init__(self, ctx):
        self.prog = None if ctx.prop == "CXX" else ctx.prog
        self.reset()

    def reset(self):
        self.findings, self.notes, self.samples, self.counts = [], [], [], {}
        self.n = self.obligations = self.discharged = 0

    b = property(lambda self: self.findings)
    s = property(lambda self: [n for n in self.notes if n[0] != "count"])

    def ok(self, *a, **k):
        self.n += 1
        self.obligations += 1
        self.discharged += 1

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def bad(self, rule, construct, where, msg, path=None):
        self.obligations += 1
        self.findings.append((construct, where, msg))

    def check(self, cond, rule, construct, where, msg, path=None, detail=""):
        (self.ok if cond else self.bad)(rule, construct, where, msg)
        return cond

    def skip(self, rule, construct, why):
        self.count("undecided " + rule)
        self.notes.append((construct, str(why)))


def work(job):
    import gc
    gc.disable()
    i, mutate_mode, kinds = job
    suite, runs, ctx = G["suite"], G["runs"], G["ctx"]
    group = runs[i]
    code = group[0][2]
    out = []
    orig = code.node

    def attempt(kind, node, helper=None):
        ctx.reset()
        ast.fix_missing_locations(node)
        try:
            node2 = ast.parse(ast.unparse(node)).body[0]
        except SyntaxError:
            return
        code.node = node2
        inst = code.cls is not None and not code.is_static and not code.is_classmethod
        owner = code.cls.methods if inst else code.module.functions
        hf = None
        if helper is not None:
            ast.fix_missing_locations(helper)
            h = ast.parse(ast.unparse(helper)).body[0]
            hf = type(code)(h.name, h, code.module, code.cls if inst else None, *([code.fact] if hasattr(code, "fact") else []))
            owner[h.name] = hf
            suite.prog.all_funcs.append(hf)
            suite.prog._func_memo.clear()
        t = time.time()
        suite.total = 0.0
        try:
            for s, f, _, recv, names_, ref in group:
                suite.one("ref", s, f, code, recv, names_, ref)
                if ctx.b:
                    break
        except Exception as exc:
            ctx.b.append((group[0][0].qual, "", "CRASH %r" % exc))
        finally:
            code.node = orig
            if hf is not None:
                owner.pop(h.name, None)
                suite.prog.all_funcs.remove(hf)
                suite.prog._func_memo.clear()
        out.append((group[0][0].qual, kind, list(ctx.b), list(ctx.s), ctx.n, time.time() - t, ast.unparse(node2), ast.unparse(helper) if helper is not None else ""))
    if not mutate_mode:
        for r in REWRITES:
            for kind, node in r(orig):
                if not kinds or any(k in kind for k in kinds):
                    attempt(kind, node)
        for kind, node, helper in r_helper(orig, code.cls is not None and not code.is_static and not code.is_classmethod, code.cls, code.module):
            if not kinds or any(k in kind for k in kinds):
                attempt(kind, node, helper)
    else:
        for kind, node in mutants(orig):
            if not kinds or any(k in kind for k in kinds):
                attempt(kind, node)
    return out


G = {}


def main():
    a = sys.argv[1:]
    specs = a[0].split(",")
    only = kinds = None
    jobs = 8
    mut = verbose = False
    i = 1
    while i < len(a):
        if a[i] == "-o":
            only = a[i + 1].split(",")
            i += 1
        elif a[i] == "-k":
            kinds = a[i + 1].split(",")
            i += 1
        elif a[i] == "-j":
            jobs = int(a[i + 1])
            i += 1
        elif a[i] == "-m":
            mut = True
        elif a[i] == "-v":
            verbose = True
        i += 1
    ctx = Ctx("CXX" if specs == ["cxx"] else "X", "quick")
    q = Quiet(ctx)
    if specs == ["cxx"]:
        from sa import cinterp, cxx2py
        suite = cinterp.CxxSuite(ctx, cxx2py.CxxProgram(ctx.cxx(), cxx2py.load_table()), "*")
    else:
        suite = Suite(ctx, *specs)
    suite.ctx = q
    runs = suite.prepare("ref", {s.qual for s in suite.specs if not only or any(s.qual.endswith(o) for o in only)})
    by = {}
    for r in runs:
        by.setdefault(r[0].qual, []).append(r)
    runs = list(by.values())
    G.update(suite=suite, runs=runs, ctx=q)
    with mp.get_context("fork").Pool(jobs) as pool:
        res = []
        for r in pool.imap_unordered(work, [(i, mut, kinds) for i in range(len(runs))], 1):
            for x in r:
                res.append(x)
                if (not mut and (x[2] or x[3])) or (mut and not x[2]):
                    print("-", "REPORTED" if x[2] else ("undecided" if x[3] else "QUIET"), x[0].split("aihwkit.")[-1].replace("rpucuda.", ""), x[1], (x[2] or x[3] or [""])[0], flush=True)
    nb = sum(1 for r in res if r[2])
    ns = sum(1 for r in res if not r[2] and r[3])
    print("%d edits: %d reported, %d undecided, %d quiet; slowest %.1fs" % (len(res), nb, ns, len(res) - nb - ns, max([r[5] for r in res] or [0])))
    for r in sorted(res, key=lambda r: (r[0], r[1])):
        if (not mut and (r[2] or r[3])) or (mut and not r[2]):
            print("%s %s %s" % ("REPORTED" if r[2] else ("undecided" if r[3] else "QUIET"), r[0].split("aihwkit.")[-1].replace("rpucuda.", ""), r[1]), (r[2] or r[3] or [""])[0])
            if verbose:
                print("\n".join("        " + l for l in (r[6] + "\n" + r[7]).split("\n")))


if __name__ == "__main__":
    main()
