"""Path-sensitive value-numbering / effect analysis over Python syntax trees.

The analysis is a forward dataflow walk over the (structured) control flow: the abstract state maps
variables and attributes to value-number terms, and carries the effect history (calls, attribute
stores, in-place mutations, raises) and the branch facts that hold.  Repository helpers are inlined
through the resolved receiver class (MRO, super(), properties) up to a bound, so extracting a helper
or renaming locals does not change what a rule sees.  Loops are walked zero and one time, loops that
only build a list are turned into the comprehension they are equal to.  Branches are split by
syntactic facts only: no solver is involved and nothing of the analysed code is executed.
"""
import ast
from .terms import T, C, G, P, A, NONE, TRUE, FALSE, Term, walk, show
from .program import Class, Func, Module, AnalysisBroken


class Ev:
    __slots__ = ("kind", "fn", "args", "kws", "target", "attr", "value", "node", "func", "loops", "stack", "n")

    def __init__(self, kind, node, func, **kw):
        self.kind, self.node, self.func = kind, node, func
        self.fn = self.target = self.attr = self.value = None
        self.args, self.kws = (), ()
        self.loops, self.stack = (), ()
        for k, v in kw.items():
            setattr(self, k, v)

    def where(self):
        return "%s:%d" % (self.func.module.rel, getattr(self.node, "lineno", 0))

    def callee(self):
        """Last name component of what is called."""
        f = self.fn
        if f is None:
            return None
        if f[0] in ("bm", "fn", "cls", "g", "tm"):
            return (f[2] if f[0] == "bm" else f[1]).split(".")[-1]
        if f[0] == "a":
            return f[2]
        return None

    def arg(self, i, name=None):
        if i is not None and i < len(self.args):
            return self.args[i]
        for k, v in self.kws:
            if k == name:
                return v
        return None

    def __repr__(self):
        if self.kind == "call":
            return "call %s(%s)@%s" % (show(self.fn), ", ".join(map(show, self.args)), self.where())
        return "%s %s%s = %s@%s" % (self.kind, show(self.target) if self.target else "", "." + str(self.attr) if self.attr else "",
                                    show(self.value) if self.value else "", self.where())


class State:
    __slots__ = ("env", "heap", "conds", "events", "status", "val", "loops", "extra")

    def __init__(self):
        self.env, self.heap, self.conds = {}, {}, {}
        self.events = ()
        self.status, self.val = "normal", None
        self.loops = ()
        self.extra = None

    def copy(self):
        s = State()
        s.env, s.heap, s.conds = dict(self.env), dict(self.heap), dict(self.conds)
        s.events, s.status, s.val, s.loops, s.extra = self.events, self.status, self.val, self.loops, self.extra
        return s

    def key(self):
        return (frozenset(self.env.items()), frozenset(self.heap.items()), tuple(id(e) for e in self.events), self.status,
                self.val, self.loops)

    def calls(self, name=None):
        return [e for e in self.events if e.kind == "call" and (name is None or e.callee() == name)]

    def path(self):
        return ", ".join(("" if v else "not ") + show(c, 5) for c, v in self.conds.items())


class Limit(AnalysisBroken):
    pass


# methods of tensors (and the torch.* functions of the same name) that are put in one canonical form
TENSOR_FN = {
    "abs", "exp", "log", "sqrt", "pow", "round", "floor", "ceil", "sign", "clamp", "mean", "max", "min", "sum", "matmul",
    "mul", "add", "sub", "div", "neg", "clone", "detach", "sigmoid", "tanh", "relu", "std", "var", "amax", "amin", "any", "all",
    "transpose", "t", "reshape", "flatten", "squeeze", "unsqueeze", "size", "dim", "numel", "where", "isnan", "std_mean", "einsum",
    "split", "cat", "concatenate", "stack", "outer", "ger", "bmm", "mm", "addmm", "chunk", "permute", "dot", "maximum", "minimum",
    "sort", "quantile", "median", "logical_and", "logical_or", "logical_not", "square", "reciprocal", "zeros_like", "ones_like",
    "rand_like", "randn_like", "empty_like", "full_like", "view", "expand", "cumsum", "norm", "true_divide", "multiply", "divide", "absolute",
}
FN_ALIAS = {"absolute": "abs", "concatenate": "cat", "concat": "cat", "multiply": "mul", "true_divide": "div", "divide": "div", "subtract": "sub",
            "negative": "neg", "clip": "clamp", "ger": "outer", "power": "pow"}
BIN_FN = {"add": "+", "sub": "-", "mul": "*", "div": "/", "pow": "**", "matmul": "@"}
RANDOM = {"rand", "randn", "rand_like", "randn_like", "normal", "bernoulli", "randint", "randint_like", "randperm", "multinomial", "uniform",
          "poisson", "log_normal", "exponential", "choice", "standard_normal"}
EXTERNAL_MATH = ("torch.", "numpy.", "math.", "np.", "torch.nn.functional.")
OPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**", ast.MatMult: "@",
       ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>"}


def mk_not(t):
    if t[0] == "not":
        return t[1]
    if t[0] == "c":
        return C(not t[1])
    return T("not", t)


def mk_bin(op, a, b):
    if a[0] == "c" and b[0] == "c" and isinstance(a[1], (int, float)) and isinstance(b[1], (int, float)):
        try:
            v = {"+": lambda x, y: x + y, "-": lambda x, y: x - y, "*": lambda x, y: x * y, "/": lambda x, y: x / y,
                 "//": lambda x, y: x // y, "%": lambda x, y: x % y, "**": lambda x, y: x ** y}[op](a[1], b[1])
            return C(v)
        except Exception:
            pass
    if op == "+" and a[0] == b[0] and a[0] in ("l", "t"):
        return T(a[0], a[1] + b[1])
    if op == "+" and a[0] == "l" and not a[1] and b[0] == "comp" and b[1] == "list":
        return b
    return T("b", op, a, b)


TENSORS = {"cat", "stack", "clone", "detach", "abs", "clamp", "transpose", "reshape", "view", "flatten", "zeros_like", "ones_like", "sum", "mean", "max", "min",
           "sqrt", "exp", "log", "round", "floor", "sign", "unsqueeze", "squeeze", "where", "zeros", "ones", "rand_like", "randn_like"}


def mk_cmp(op, a, b):
    if op == "is not":
        return mk_not(mk_cmp("is", a, b))
    if op == "!=":
        return mk_not(mk_cmp("==", a, b))
    if op == "not in":
        return mk_not(mk_cmp("in", a, b))
    if op == ">":
        return mk_cmp("<", b, a)
    if op == ">=":
        return mk_not(mk_cmp("<", a, b))
    if op == "<=":
        return mk_not(mk_cmp("<", b, a))
    if op in ("is", "=="):
        if a is b and op == "is":
            return TRUE
        if a[0] == "c" and b[0] == "c":
            return C(a[1] == b[1] if op == "==" else a[1] is b[1])
        if op == "is" and b is NONE and a[0] in ("l", "t", "d", "new", "fn", "bm", "clos", "cls", "comp", "lam", "b"):
            return FALSE
        if op == "is" and b is NONE and a[0] == "call" and a[1][0] == "tm" and a[1][1] in TENSORS:
            return FALSE
        if op == "is" and a is NONE:
            a, b = b, a
        if op == "==" and a is b:
            return TRUE
        # class-qualified enum members: A.x == A.y
        if a[0] == "a" and b[0] == "a" and a[1][0] == "cls" and b[1][0] == "cls" and a[1] is b[1]:
            return C(a[2] == b[2])
        if op == "==" and (a[0] == "c" or (a[0] == "a" and a[1][0] == "cls")) and not (b[0] == "c"):
            a, b = b, a
    if op == "<" and a[0] == "c" and b[0] == "c":
        try:
            return C(a[1] < b[1])
        except TypeError:
            pass
    if op == "in" and b[0] in ("l", "t") and a[0] == "c" and all(x[0] == "c" for x in b[1]):
        return C(any(x[1] == a[1] for x in b[1]))
    if op == "in" and b[0] in ("l", "t", "d", "set") and not b[1]:
        return FALSE
    return T("cmp", op, a, b)


class Interp:
    def __init__(self, prog, stop=None, depth=8, attr_types=None, max_states=6000, loop_once=False, fold_consts=True,
                 param_types=True, unroll=8, inline_ctor=None, max_steps=400000, elem_types=None, keep=None,
                 keep_heap=None, merging=True):
        self.prog = prog
        self.merging = merging
        self.stop = stop or (lambda func, recv, args, kws: False)
        self.depth = depth
        self.attr_types = attr_types or {}
        self.types = {}
        self.closures = {}
        self.max_states = max_states
        self.loop_once = loop_once
        self.rounds = 3         # rounds of a loop that hands something from one round to the next
        self.fold_consts = fold_consts
        self.param_types = param_types
        self.unroll = unroll
        self.inline_ctor = inline_ctor or (lambda cls: False)
        self.uid = 0
        self.first_idx = []
        self.discarded = set()          # ids of call nodes whose value is not used
        self.while_times = 1
        self.inlined = set()
        self.steps = 0
        self.max_steps = max_steps
        self.elem_types = elem_types or {}
        self.keep = keep
        self.keep_heap = keep_heap
        self.assume = []      # callables term,state -> bool or None
        self.site = [0, 0]
        self.prefer = None    # term,state -> the only direction of a branch to follow, or None for both
        self.quiet = None     # event -> it cannot be observed: lets a loop that filters into a list become the comprehension it is equal to

    # ------------------------------------------------------------------ helpers
    def fresh(self, kind="u"):
        self.uid += 1
        return T("fresh", kind, self.uid)

    def typeof(self, t, st=None):
        if t in self.types:
            return self.types[t]
        if t[0] == "call" and t[1][0] == "cls":
            return self.prog.find_cls(t[1][1])
        if t[0] == "new":
            return self.prog.find_cls(t[1])
        if t[0] == "a" and t[2] in self.attr_types:
            return self.attr_types[t[2]]
        if t[0] == "elem" and t[1][0] == "a" and t[1][2] in self.elem_types:
            return self.elem_types[t[1][2]]
        return None

    def ev(self, st, kind, node, frame, **kw):
        e = Ev(kind, node, frame.func, **kw)
        e.loops, e.stack = st.loops, frame.stack
        if self.keep is not None and not self.keep(e):
            return e
        st.events = st.events + (e,)
        return e

    # ------------------------------------------------------------------ entry
    def run(self, func, recv=None, args=None, selfterm=None, heap=None, conds=None, env=None):
        """Analyse `func` with symbolic parameters; returns the final states (return/raise)."""
        st = State()
        if heap:
            st.heap.update(heap)
        if conds:
            st.conds.update(conds)
        args = dict(args or {})
        names = func.params()
        frame = Frame(func, recv, (func.qual,))
        if func.cls is not None and not func.is_static and names:
            self_t = selfterm or T("self")
            if recv is None:
                recv = func.cls
                frame.recv = recv
            if func.is_classmethod:
                st.env[names[0]] = T("cls", recv.qual)
            else:
                self.types.setdefault(self_t, recv)
                st.env[names[0]] = self_t
            names = names[1:]
            frame.selfterm = self_t
        node = func.node
        for n in names + [x.arg for x in node.args.kwonlyargs]:
            st.env[n] = args.get(n, P(n))
            self._type_param(func, n, st.env[n])
        if node.args.vararg:
            st.env[node.args.vararg.arg] = args.get(node.args.vararg.arg, P("*" + node.args.vararg.arg))
        if node.args.kwarg:
            st.env[node.args.kwarg.arg] = args.get(node.args.kwarg.arg, P("**" + node.args.kwarg.arg))
        if env:
            st.env.update(env)
        out = self.block(node.body, [st], frame)
        for s in out:
            if s.status == "normal":
                s.status, s.val = "return", NONE
        return self.merge(out)

    def _type_param(self, func, name, term):
        if not self.param_types or term[0] != "p" or term in self.types:
            return
        for a in func.node.args.posonlyargs + func.node.args.args + func.node.args.kwonlyargs:
            if a.arg == name and a.annotation is not None:
                ann = a.annotation
                if isinstance(ann, ast.Subscript) and isinstance(ann.value, ast.Name) and ann.value.id == "Optional":
                    ann = ann.slice
                r = self.prog.resolve_expr(func.module, ann)
                if isinstance(r, Class):
                    self.types[term] = r

    # ------------------------------------------------------------------ statements
    def merge(self, states):
        if not self.merging:
            return states
        if len(states) < 2:
            return states
        by = {}
        for s in states:
            k = s.key()
            o = by.get(k)
            if o is None:
                by[k] = s
            else:
                o.conds = {c: v for c, v in o.conds.items() if s.conds.get(c) is v}
        out = list(by.values())
        if len(out) > self.max_states:
            raise Limit("state limit exceeded (%d)" % len(out))
        return out

    def block(self, stmts, states, frame):
        for stmt in stmts:
            live = [s for s in states if s.status == "normal"]
            done = [s for s in states if s.status != "normal"]
            if not live:
                return done
            nxt = []
            for s in live:
                nxt.extend(self.stmt(stmt, s, frame))
            states = done + (self.merge(nxt) if len(nxt) > 1 else nxt)
            if len(states) > self.max_states:
                raise Limit("state limit exceeded in %s" % frame.func.qual)
        return states

    def stmt(self, n, st, frame):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Limit("step limit exceeded in %s" % frame.func.qual)
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is None:
            raise AnalysisBroken("statement %s not supported (%s)" % (type(n).__name__, frame.func.where(n)))
        return m(n, st, frame)

    def s_Pass(self, n, st, fr):
        return [st]
    s_Global = s_Nonlocal = s_Pass

    def s_Import(self, n, st, fr):
        for a in n.names:
            nm = a.asname or a.name.split(".")[0]
            st.env[nm] = self.entity(self.prog.modules.get(a.name if a.asname else nm, a.name if a.asname else nm))
        return [st]

    def s_ImportFrom(self, n, st, fr):
        for a in n.names:
            base = n.module or ""
            if n.level:
                parts = fr.func.module.name.split(".")
                if not fr.func.module.is_pkg:
                    parts = parts[:-1]
                parts = parts[:len(parts) - (n.level - 1)]
                base = ".".join(parts + ([n.module] if n.module else []))
            m = self.prog.modules.get(base)
            r = self.prog.resolve(m, a.name) if m else None
            st.env[a.asname or a.name] = self.entity(r) if r is not None else G(base + "." + a.name)
        return [st]

    def s_Expr(self, n, st, fr):
        if isinstance(n.value, ast.Constant):
            return [st]
        self.discarded.add(id(n.value))
        return [s for _, s in self.eval(n.value, st, fr)]

    def s_Return(self, n, st, fr):
        if n.value is None:
            st.status, st.val = "return", NONE
            return [st]
        out = []
        for v, s in self.eval(n.value, st, fr):
            if s.status == "normal":
                s.status, s.val = "return", v
            out.append(s)
        return out

    def s_Raise(self, n, st, fr):
        if n.exc is None:
            st.status, st.val = "raise", T("reraise")
            return [st]
        out = []
        for v, s in self.eval(n.exc, st, fr):
            if s.status == "normal":
                s.status, s.val = "raise", v
                self.ev(s, "raise", n, fr, value=v)
            out.append(s)
        return out

    def s_Assert(self, n, st, fr):
        out = []
        for b, s in self.branch(n.test, st, fr):
            if s.status != "normal":
                out.append(s)
            elif b:
                out.append(s)
            else:
                s.status, s.val = "raise", T("call", G("AssertionError"), (), ())
                self.ev(s, "raise", n, fr, value=s.val)
                out.append(s)
        return out

    def s_Delete(self, n, st, fr):
        for t in n.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, (ast.Attribute, ast.Subscript)):
                for v, s in self.eval(t.value, st, fr)[:1]:
                    if isinstance(t, ast.Attribute):
                        self.ev(s, "del", n, fr, target=v, attr=t.attr)
                        s.heap[(v, t.attr)] = T("deleted")
                    else:
                        k = self.eval(t.slice, s, fr)[0][0]
                        self.ev(s, "delitem", n, fr, target=v, value=k)
                    st = s
        return [st]

    def s_Assign(self, n, st, fr):
        out = []
        for v, s in self.eval(n.value, st, fr):
            states = [s]
            for t in n.targets:
                nxt = []
                for s2 in states:
                    nxt += self.assign(t, v, s2, fr, n) if s2.status == "normal" else [s2]
                states = nxt
            out += states
        return out

    def s_AnnAssign(self, n, st, fr):
        if n.value is None:
            return [st]
        out = []
        for v, s in self.eval(n.value, st, fr):
            out += self.assign(n.target, v, s, fr, n) if s.status == "normal" else [s]
        return out

    def s_AugAssign(self, n, st, fr):
        out = []
        op = OPS[type(n.op)]
        load = _load(n.target)
        for old, s in self.eval(load, st, fr):
            for v, s2 in self.eval(n.value, s, fr):
                if s2.status != "normal":
                    out.append(s2)
                    continue
                new = mk_bin(op, old, v)
                if not _scalar(old) and not (old[0] == "a" and old[2] in number_fields(self.prog)):
                    self.ev(s2, "mut", n, fr, target=old, attr=op + "=", value=new)
                out += self.assign(n.target, new, s2, fr, n, aug=True)
        return out

    def assign(self, target, v, st, fr, node, aug=False):
        if isinstance(target, ast.Name):
            if "@" + target.id in st.env:         # a parameter that the caller passed
                if aug:
                    st.env["@" + target.id] = v
                else:
                    st.env["!" + target.id] = st.env.pop("@" + target.id)
            st.env[target.id] = v
            return [st]
        if isinstance(target, ast.Starred):
            return self.assign(target.value, v, st, fr, node)
        if isinstance(target, (ast.Tuple, ast.List)):
            states = [st]
            k = len(target.elts)
            star = any(isinstance(e, ast.Starred) for e in target.elts)
            for i, e in enumerate(target.elts):
                if v[0] in ("t", "l") and len(v[1]) == k and not star:
                    x = v[1][i]
                elif star:
                    x = T("part", v, i)
                else:
                    x = T("i", v, C(i))
                nxt = []
                for s in states:
                    nxt += self.assign(e, x, s, fr, node)
                states = nxt
            return states
        if isinstance(target, ast.Attribute):
            out = []
            for b, s in self.eval(target.value, st, fr):
                out += self.store(b, target.attr, v, s, fr, node, aug)
            return out
        if isinstance(target, ast.Subscript):
            out = []
            for b, s in self.eval(target.value, st, fr):
                for k, s2 in self.eval(target.slice, s, fr):
                    self.ev(s2, "setitem", node, fr, target=b, attr=k, value=v)
                    if b[0] == "d":
                        items = tuple((kk, vv) for kk, vv in b[1] if kk is not k) + ((k, v),)
                        nb = T("d", items)
                    else:
                        nb = T("upd", b, k, v)
                    self.writeback(target.value, nb, s2, fr)
                    out.append(s2)
            return out
        raise AnalysisBroken("assignment target %s" % type(target).__name__)

    def writeback(self, lv, v, st, fr):
        """The object denoted by lvalue expression `lv` was changed in place: its new value number."""
        if isinstance(lv, ast.Name):
            old = st.env.get(lv.id)
            st.env[lv.id] = v
            if "@" + lv.id in st.env:
                st.env["@" + lv.id] = v
            if old is not None:
                for k, x in list(st.heap.items()):
                    if x is old and old[0] in ("l", "d", "new", "call", "upd"):
                        st.heap[k] = v
        elif isinstance(lv, ast.Attribute):
            r = self.eval(lv.value, st, fr)
            if len(r) == 1:
                if lv.attr == "data":
                    self.writeback(lv.value, v, st, fr)
                    return
                cls = self.typeof(r[0][0])
                f = cls.lookup(lv.attr) if cls else None
                if f is None or not f.is_property:
                    st.heap[(r[0][0], lv.attr)] = v
        elif isinstance(lv, ast.Subscript):
            r = self.eval(lv.value, st, fr)
            if len(r) == 1 and r[0][0][0] == "d":
                k = self.eval(lv.slice, st, fr)
                if len(k) == 1:
                    b = r[0][0]
                    items = tuple((kk, vv) for kk, vv in b[1] if kk is not k[0][0]) + ((k[0][0], v),)
                    self.writeback(lv.value, T("d", items), st, fr)
            elif len(r) == 1 and isinstance(lv.value, (ast.Name, ast.Subscript)):
                b = r[0][0]
                while b[0] in ("upd", "i"):
                    b = b[1]
                k = self.eval(lv.slice, st, fr)
                if b[0] in ("comp", "l") and len(k) == 1:       # nested lists made here
                    self.writeback(lv.value, T("upd", r[0][0], k[0][0], v), st, fr)

    def store(self, base, attr, v, st, fr, node, aug=False):
        cls = self.typeof(base)
        if cls is not None:
            setter = cls.lookup_setter(attr)
            if setter is not None:
                return [s for _, s in self.call_func(setter, cls, base, [v], [], st, fr, node)]
        self.ev(st, "store", node, fr, target=base, attr=attr, value=v)
        if self.keep_heap is None or self.keep_heap(base, attr):
            st.heap[(base, attr)] = v
        return [st]

    def s_If(self, n, st, fr):
        out = []
        for b, s in self.branch(n.test, st, fr):
            if s.status != "normal":
                out.append(s)
            else:
                out += self.block(n.body if b else n.orelse, [s], fr)
        return self.merge(out)

    def s_While(self, n, st, fr):
        """Up to `while_times` rounds; paths that need more are not followed."""
        out = []
        f = counting(n, st)
        if f is not None:
            return self.s_For(f, st, fr)
        self.uid += 1
        lid = T("while", self.uid)
        outer = st.loops
        states = [st.copy()]
        for turn in range(self.while_times):
            nxt = []
            for s0 in states:
                for b, s in self.branch(n.test, s0, fr):
                    if s.status != "normal" or not b:
                        if s.status == "normal" and n.orelse:
                            out += self.block(n.orelse, [s], fr)
                        else:
                            out.append(s)
                        continue
                    s.loops = outer + (lid,)
                    self.ev(s, "loop", n, fr, value=lid)
                    for s2 in self.block(n.body, [s], fr):
                        s2.loops = outer
                        self.ev(s2, "endloop", n, fr, value=lid)
                        if s2.status == "break":
                            s2.status = "normal"
                            out.append(s2)
                        elif s2.status in ("continue", "normal"):
                            s2.status = "normal"
                            nxt.append(s2)
                        else:
                            out.append(s2)
            states = self.merge(nxt)
        const_true = isinstance(n.test, ast.Constant) and n.test.value
        if self.while_times == 1:
            if not const_true:
                out += states
        else:
            for s0 in states:
                out += [s for b, s in self.branch(n.test, s0, fr) if not b]
        return self.merge(out)

    def loop_items(self, it):
        """Known element terms of an iterable term, or None."""
        if it[0] in ("t", "l") and len(it[1]) <= self.unroll:
            return list(it[1])
        if it[0] == "c" and isinstance(it[1], (str, bytes)):
            return None
        if it[0] == "call" and it[1][0] == "g" and it[1][1] == "enumerate" and it[2]:
            r = self.loop_items(it[2][0])
            if r is not None:
                return [T("t", (C(i), x)) for i, x in enumerate(r)]
        if it[0] == "call" and it[1][0] == "g" and it[1][1] == "zip" and it[2]:
            rs = [self.loop_items(x) for x in it[2]]
            if all(r is not None for r in rs):
                return [T("t", x) for x in zip(*rs)]
        if it[0] == "call" and it[1][0] == "g" and it[1][1] == "range" and len(it[2]) == 1 and it[2][0][0] == "c" \
                and isinstance(it[2][0][1], int) and it[2][0][1] <= 4:
            return [C(i) for i in range(it[2][0][1])]
        if it[0] == "call" and it[1][0] == "a" and it[1][1][0] == "d" and not it[2]:
            d = it[1][1][1]
            if len(d) <= self.unroll:
                if it[1][2] == "items":
                    return [T("t", (k, v)) for k, v in d]
                if it[1][2] == "keys":
                    return [k for k, v in d]
                if it[1][2] == "values":
                    return [v for k, v in d]
        if it[0] == "d" and len(it[1]) <= self.unroll:
            return [k for k, v in it[1]]
        return None

    def elem(self, it):
        """Symbolic element of an iterable."""
        if it[0] == "call" and it[1][0] == "g" and it[2]:
            n = it[1][1]
            if n == "zip":
                return T("t", tuple(self.elem(x) for x in it[2]))
            if n == "enumerate":
                return T("t", (T("idx", iterbase(it[2][0])), self.elem(it[2][0])))
            if n in ("list", "tuple", "iter") and len(it[2]) == 1:
                return self.elem(it[2][0])
            if n == "range" and len(it[2]) == 1 and iterbase(it) is not it:
                return T("idx", iterbase(it))
        b = iterbase(it)
        if it[0] == "call" and it[1][0] == "a" and it[1][2] == "items" and not it[2]:
            if b[0] == "comp" and b[1] == "dict" and b[2][0] == "t" and not b[4]:
                return b[2]
            if b[0] == "a" and b[2] == "__dict__":
                k = T("elem", b)
                return T("t", (k, T("call", G("getattr"), (b[1], k), ())))
            return T("t", (T("elem", b), T("i", b, T("elem", b))))
        if it[0] == "call" and it[1][0] == "a" and it[1][2] == "values" and not it[2]:
            return T("i", b, T("elem", b))
        if b[0] == "comp" and b[1] in ("list", "gen") and not b[4]:
            return b[2]
        return T("elem", b)

    def s_For(self, n, st, fr):
        out = []
        for it, s in self.eval(n.iter, st, fr):
            if s.status != "normal":
                out.append(s)
                continue
            items = self.loop_items(it)
            if items is not None:
                states, broke = [s], []
                for x in items:
                    nxt = []
                    for s2 in states:
                        for s3 in self.assign(n.target, x, s2, fr, n):
                            for s4 in self.block(n.body, [s3], fr):
                                if s4.status == "continue":
                                    s4.status = "normal"
                                if s4.status == "break":
                                    s4.status = "normal"
                                    broke.append(s4)
                                elif s4.status == "normal":
                                    nxt.append(s4)
                                else:
                                    broke.append(s4)
                    states = self.merge(nxt)
                if n.orelse:
                    states = self.block(n.orelse, states, fr)
                out += states + broke
                continue
            ne = T("nonempty", it)
            known = s.conds.get(ne)
            if known is not True and not self.loop_once:
                z = s.copy()
                z.conds[ne] = False
                out += self.block(n.orelse, [z], fr) if n.orelse else [z]
            if known is False:
                continue
            s.conds[ne] = True
            if self.quiet is not None and filters(n):
                z = self.filtered(it, s, n, fr)
                if z is not None:
                    out += self.block(n.orelse, [z], fr) if n.orelse else [z]
                    continue
            pre_env, pre_heap = dict(s.env), dict(s.heap)
            outer = s.loops
            s.loops = s.loops + (iterbase(it),)
            self.ev(s, "loop", n, fr, value=it)
            counters = {}
            for k in counter_vars(n):
                if isinstance(s.env.get(k), Term):
                    counters[k] = s.env[k]
                    s.env[k] = mk_bin("+", T("idx", iterbase(it)), s.env[k]) if s.env[k] != C(0) else T("idx", iterbase(it))
            again = self.loop_once and bool(carried(n) - set(counters))
            for s2 in self.assign(n.target, self.elem(it), s, fr, n):
                if again:                   # the rounds are told apart: the index of the first is 0, that of the others is not
                    self.first_idx.append(T("idx", iterbase(it)))
                body = self.block(n.body, [s2], fr)
                for k, v in counters.items():
                    for s3 in body:
                        if s3.status in ("normal", "continue"):
                            s3.env[k] = mk_bin("+", T("call", G("len"), (iterbase(it),), ()), v) if v != C(0) else T("call", G("len"), (iterbase(it),), ())
                if again:
                    self.first_idx.pop()
                for r in range(2, self.rounds + 1) if again else ():           # what one round hands to the next
                    first, body = body, []
                    for s3 in first:
                        if s3.status not in ("continue", "normal"):
                            body.append(s3)
                            continue
                        s3.status = "normal"
                        for k, v in counters.items():
                            s3.env[k] = mk_bin("+", second(T("idx", iterbase(it)), r), v) if v != C(0) else second(T("idx", iterbase(it)), r)
                        for s4 in self.assign(n.target, second(self.elem(it), r), s3, fr, n):
                            body += self.block(n.body, [s4], fr)
                for s3 in body:
                    if s3.status in ("continue", "break"):
                        s3.status = "normal" if s3.status == "continue" else "brk"
                    s3.loops = outer
                    self.ev(s3, "endloop", n, fr, value=it)
                single = len([b for b in body if b.status == "normal"]) == 1 and len(body) == 1
                for s3 in body:
                    if s3.status == "brk":
                        s3.status = "normal"
                    self.summarise(pre_env, pre_heap, s3, it, single)
                done = [s3 for s3 in body if s3.status != "normal"]
                cont = [s3 for s3 in body if s3.status == "normal"]
                if n.orelse:
                    cont = self.block(n.orelse, cont, fr)
                out += done + cont
        return self.merge(out)

    def filtered(self, it, st, n, fr):
        """The state after `for x in it: if c: l.append(e)` when the body does nothing else, with l = [e for x in it if c]; None when it does."""
        s = st.copy()
        s.loops = s.loops + (iterbase(it),)
        seen, pre = len(s.events), dict(s.conds)
        prefer, self.prefer = self.prefer, None
        try:
            body = []
            for s2 in self.assign(n.target, self.elem(it), s, fr, n):
                body += self.block(n.body, [s2], fr)
        finally:
            self.prefer = prefer
        if len(body) < 2 or any(b.status not in ("normal", "continue") or any(not self.quiet(e) for e in b.events[seen:]) for b in body):
            return None
        took, several = None, False
        for b in body:
            new = {}
            for kind, d, old in (("env", b.env, st.env), ("heap", b.heap, st.heap)):
                for k, v in d.items():
                    o = old.get(k)
                    if o is None or o is v:
                        if o is None and kind == "heap":
                            return None
                        continue
                    if not isinstance(v, Term) or not isinstance(o, Term) or o[0] not in ("l", "d") or v[0] != o[0] or o[1] or len(v[1]) != 1:
                        if kind == "env" and k in targets(n):
                            continue
                        return None
                    new[kind, k] = v
            if new:
                if took is not None and set(took[1]) != set(new):
                    return None
                several = several or took is not None
                took = took or (b, new)
        if took is None:
            return None
        b, new = took
        conds = (T("partial"),) if several else tuple(c if v is True else T("not", c) for c, v in b.conds.items() if c not in pre)
        b.conds = pre
        b.status = "normal"
        b.loops = st.loops
        for (kind, k), v in new.items():
            e = v[1][0]
            r = T("comp", "list", e, iterbase(it), conds) if v[0] == "l" else T("comp", "dict", T("t", e), iterbase(it), conds)
            (b.env if kind == "env" else b.heap)[k] = r
        return b

    def summarise(self, pre_env, pre_heap, st, it, single):
        """Turn `l=[]; for x in it: l.append(e)` into the comprehension it is equal to."""
        for d, pre in ((st.env, pre_env), (st.heap, pre_heap)):
            for k, v in list(d.items()):
                o = pre.get(k)
                if o is v or o is None or not isinstance(v, Term):
                    continue
                if o[0] == "l" and v[0] == "l" and len(v[1]) == len(o[1]) + 1 and v[1][:len(o[1])] == o[1] and not o[1]:
                    d[k] = T("comp", "list", v[1][-1], iterbase(it), () if single else (T("partial"),))
                elif o[0] == "d" and v[0] == "d" and not o[1] and len(v[1]) == 1:
                    d[k] = T("comp", "dict", T("t", v[1][0]), iterbase(it), () if single else (T("partial"),))

    def s_Break(self, n, st, fr):
        st.status = "break"
        return [st]

    def s_Continue(self, n, st, fr):
        st.status = "continue"
        return [st]

    def s_Try(self, n, st, fr):
        start = st.copy()
        body = self.block(n.body, [st], fr)
        out = []
        for s in body:
            if s.status == "raise" and n.handlers:
                caught = False
                for h in n.handlers:
                    s2 = s.copy()
                    s2.status, s2.val = "normal", None
                    if self.may_catch(h, s.val, fr):
                        if h.name:
                            s2.env[h.name] = s.val
                        self.ev(s2, "except", h, fr, value=s.val)
                        out += self.block(h.body, [s2], fr)
                        caught = True
                        break
                if not caught:
                    out.append(s)
            elif s.status == "normal" and n.orelse:
                out += self.block(n.orelse, [s], fr)
            else:
                out.append(s)
        for s in body:
            if s.status != "raise":
                for h in n.handlers:
                    s.conds[T("raises", fr.func.where(n), T("str", ast.unparse(h.type) if h.type else "BaseException"))] = False
        for h in n.handlers:     # an exception of an opaque callee inside the body
            s2 = start.copy()
            exc = T("exc", tuple([ast.unparse(h.type)] if h.type else ["BaseException"]))
            s2.conds[T("raises", fr.func.where(n), T("str", ast.unparse(h.type) if h.type else "BaseException"))] = True
            if h.name:
                s2.env[h.name] = exc
            self.ev(s2, "except", h, fr, value=exc)
            out += self.block(h.body, [s2], fr)
        if n.finalbody:
            fin = []
            for s in out:
                status, val = s.status, s.val
                s.status = "normal"
                for s2 in self.block(n.finalbody, [s], fr):
                    if s2.status == "normal":
                        s2.status, s2.val = status, val
                    fin.append(s2)
            out = fin
        return self.merge(out)

    def may_catch(self, h, exc, fr):
        if h.type is None:
            return True
        names = [decor(x) for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
        if any(x in ("Exception", "BaseException") for x in names):
            return True
        e = exc
        if e is not None and e[0] == "call":
            e = e[1]
        if e is None or e[0] not in ("cls", "g"):
            return True
        nm = e[1].split(".")[-1]
        if nm in names:
            return True
        c = self.prog.find_cls(e[1]) if e[0] == "cls" else None
        return bool(c) and any(x.name in names for x in c.mro())

    def s_With(self, n, st, fr):
        states = [st]
        for item in n.items:
            nxt = []
            for s in states:
                for v, s2 in self.eval(item.context_expr, s, fr):
                    if s2.status == "normal":
                        self.ev(s2, "enter", item.context_expr, fr, value=v)
                        if item.optional_vars is not None:
                            nxt += self.assign(item.optional_vars, T("ctx", v), s2, fr, n)
                            continue
                    nxt.append(s2)
            states = nxt
        out = self.block(n.body, states, fr)
        for s in out:
            self.ev(s, "exit", n, fr)
        return out

    def s_FunctionDef(self, n, st, fr):
        f = Func(n.name, n, fr.func.module, None, fr.func)
        self.uid += 1
        t = T("clos", self.uid, n.name)
        st.env[n.name] = t
        self.closures[t] = (f, st.env, fr)
        return [st]

    def s_ClassDef(self, n, st, fr):
        st.env[n.name] = self.fresh("localclass_" + n.name)
        return [st]

    # ------------------------------------------------------------------ conditions
    def truth(self, t, st):
        if t[0] == "c":
            return bool(t[1])
        if t[0] == "not":
            r = self.truth(t[1], st)
            return None if r is None else not r
        if t in st.conds:
            return st.conds[t]
        for a in self.assume:
            r = a(t, st)
            if r is not None:
                return r
        if t[0] == "bool":
            rs = [self.truth(x, st) for x in t[2]]
            if t[1] == "and":
                if any(r is False for r in rs):
                    return False
                if all(r is True for r in rs):
                    return True
            else:
                if any(r is True for r in rs):
                    return True
                if all(r is False for r in rs):
                    return False
        if t[0] in ("fn", "bm", "clos", "cls", "new"):
            return True
        if t[0] in ("l", "t", "d"):
            return bool(t[1])
        if t[0] == "cmp" and t[1] == "is" and t[3] is NONE:
            if st.conds.get(t[2]) is True:
                return False
            ty = self.typeof(t[2])
            if t[2][0] in ("call",) and ty is not None:
                return False
            if any(v is True and c[0] == "isinstance" and c[1] is t[2] for c, v in st.conds.items()):
                return False
            for c, v in st.conds.items():
                if v is True and c[0] == "cmp" and c[1] in ("==", "is") and c[2] is t[2] and c[3] is not NONE and \
                        (c[3][0] == "c" or (c[3][0] == "a" and c[3][1][0] == "cls")):
                    return False
        if t[0] == "cmp" and t[1] == "==" and t[3] == C(0) and t[2][0] == "idx":
            if t[2] in self.first_idx:
                return True
            if len(t[2]) > 2:
                return False
        if t[0] in ("idx",):
            if t in self.first_idx:
                return False
            if len(t) > 2:
                return True
        if t[0] == "cmp" and t[1] == "<" and t[2] == C(0) and t[3][0] == "idx":
            if t[3] in self.first_idx:
                return False
            if len(t[3]) > 2:
                return True
        if t[0] == "cmp" and t[1] in ("==", "is"):
            # x == A known  =>  x == B is false for other constants
            for c, v in st.conds.items():
                if v is True and c[0] == "cmp" and c[1] in ("==", "is") and c[2] is t[2] and c[3] is not t[3]:
                    a, b = c[3], t[3]
                    if a[0] == "c" and b[0] == "c" and a[1] != b[1]:
                        return False
                    if a[0] == "a" and b[0] == "a" and a[1][0] == "cls" and b[1] is a[1]:
                        return False
        if st.conds.get(T("cmp", "is", t, NONE)) is True:
            return False
        return None

    def branch(self, e, st, fr):
        """Evaluate a condition: list of (bool, state) with the branch facts recorded."""
        if isinstance(e, ast.BoolOp):
            is_and = isinstance(e.op, ast.And)
            out, cur = [], [st]
            for i, x in enumerate(e.values):
                nxt = []
                for s in cur:
                    for b, s2 in self.branch(x, s, fr):
                        if s2.status != "normal" or b is not is_and or i == len(e.values) - 1:
                            out.append((b, s2))
                        else:
                            nxt.append(s2)
                cur = nxt
            return out
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(not b, s) for b, s in self.branch(e.operand, st, fr)]
        if isinstance(e, ast.Compare) and len(e.ops) > 1:
            parts, left = [], e.left
            for o, r in zip(e.ops, e.comparators):
                parts.append(ast.copy_location(ast.Compare(left, [o], [r]), e))
                left = r
            return self.branch(ast.copy_location(ast.BoolOp(ast.And(), parts), e), st, fr)
        out = []
        for v, s in self.eval(e, st, fr):
            if s.status != "normal":
                out.append((False, s))
                continue
            self.site = [id(e), 0]
            out += self.split(v, s)
        return out

    def split(self, v, s):
        r = self.truth(v, s)
        if r is not None:
            return [(r, s)]
        neg = False
        t = v
        while t[0] == "not":
            t, neg = t[1], not neg
        if t[0] == "call" and t[1][0] == "g" and t[1][1] == "bool" and len(t[2]) == 1:
            t = t[2][0]
        if t[0] == "bool":
            is_and = t[1] == "and"
            out, cur = [], [s]
            for i, x in enumerate(t[2]):
                nxt = []
                for s1 in cur:
                    for b, s2 in self.split(x, s1):
                        if b is not is_and or i == len(t[2]) - 1:
                            out.append((b, s2))
                        else:
                            nxt.append(s2)
                cur = nxt
            return [(b is not neg, s2) for b, s2 in out]
        if t[0] == "cmp" and t[1] == "in" and t[3][0] in ("l", "t"):
            alts = T("bool", "or", tuple(mk_cmp("==", t[2], x) for x in t[3][1]))
            return [(b is not neg, s2) for b, s2 in self.split(alts, s)]
        r = self.truth(t, s)
        if r is not None:
            return [(r is not neg, s)]
        self.site[1] += 1
        r = self.prefer(t, s) if self.prefer is not None else None
        if r is not None:
            s.conds[t] = r
            return [(r is not neg, s)]
        a, b = s, s.copy()
        a.conds[t] = True
        b.conds[t] = False
        if t[0] == "isinstance" and t[2][0] == "cls":
            pass
        return [(not neg, a), (neg, b)]

    # ------------------------------------------------------------------ expressions
    def eval(self, e, st, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise AnalysisBroken("expression %s not supported (%s)" % (type(e).__name__, fr.func.where(e)))
        return m(e, st, fr)

    def evals(self, es, st, fr):
        """Evaluate a list of expressions: list of (tuple of values, state)."""
        res = [((), st)]
        for e in es:
            nxt = []
            for vs, s in res:
                if s.status != "normal":
                    nxt.append((vs + (T("dead"),), s))
                    continue
                for v, s2 in self.eval(e, s, fr):
                    nxt.append((vs + (v,), s2))
            res = nxt
        return res

    def e_Constant(self, e, st, fr):
        v = e.value
        if isinstance(v, complex) or v is Ellipsis:
            v = repr(v)
        return [(C(v), st)]

    def e_Name(self, e, st, fr):
        if e.id in st.env:
            return [(st.env[e.id], st)]
        return [(self.global_name(e.id, fr), st)]

    def global_name(self, name, fr):
        r = self.prog.resolve(fr.func.module, name)
        return self.entity(r, name)

    def entity(self, r, name=None):
        if isinstance(r, Class):
            return T("cls", r.qual)
        if isinstance(r, Func):
            return T("fn", r.qual)
        if isinstance(r, Module):
            return T("mod", r.name)
        if isinstance(r, tuple) and r and r[0] == "global":
            _, m, n = r
            v = m.globals[n]
            if isinstance(v, ast.Constant):
                c = v.value
                return C(c) if not isinstance(c, complex) and c is not Ellipsis else C(repr(c))
            if isinstance(v, ast.UnaryOp) and isinstance(v.op, ast.USub) and isinstance(v.operand, ast.Constant):
                return C(-v.operand.value)
            return G(m.name + "." + n)
        if isinstance(r, str):
            return G(r)
        return G(name or "?")

    def e_Attribute(self, e, st, fr):
        out = []
        for b, s in self.eval(e.value, st, fr):
            out += self.getattr(b, e.attr, s, fr, e) if s.status == "normal" else [(T("dead"), s)]
        return out

    def getattr(self, b, attr, st, fr, node):
        if b[0] == "mod":
            m = self.prog.modules[b[1]]
            r = self.prog.resolve(m, attr)
            if r is None and m.name + "." + attr in self.prog.modules:
                return [(T("mod", m.name + "." + attr), st)]
            return [(self.entity(r, b[1] + "." + attr), st)]
        if b[0] == "g":
            return [(G(b[1] + "." + attr), st)]
        if (b, attr) in st.heap:
            return [(st.heap[(b, attr)], st)]
        if b[0] == "super":
            recv, after, self_t = self.prog.find_cls(b[1]), self.prog.find_cls(b[2]), b[3]
            f = recv.lookup_after(after, attr)
            if f is None:
                return [(T("a", b, attr), st)]
            if f.is_property:
                return self.call_func(f, recv, self_t, [], [], st, fr, node)
            return [(T("bm", self_t, f.qual, recv.qual), st)]
        if b[0] == "cls":
            c = self.prog.find_cls(b[1])
            f = c.lookup(attr) if c else None
            if f is not None and (f.is_static or f.is_classmethod):
                return [(T("bm", b, f.qual, c.qual), st)]
            if f is not None:
                return [(T("um", f.qual, c.qual), st)]
            a = c.lookup_attr(attr) if c else None
            if a and self.fold_consts and not any(x in ("Enum", "enum.Enum", "IntEnum", "enum.IntEnum", "Flag") or x.endswith(".Enum") for x in c.ext_bases()):
                v = a[1]
                if isinstance(v, ast.Constant) and not isinstance(v.value, complex) and v.value is not Ellipsis:
                    return [(C(v.value), st)]
            return [(A(b, attr), st)]
        cls = self.typeof(b)
        if cls is not None:
            f = cls.lookup(attr)
            if f is not None:
                if f.is_property:
                    if self.stop(f, cls, (), ()):
                        return [(A(b, attr), st)]
                    return self.call_func(f, cls, b, [], [], st, fr, node)
                return [(T("bm", b, f.qual, cls.qual), st)]
        if attr == "data" and b[0] in ("a", "p", "call", "b", "upd", "u"):
            return [(A(b, attr), st)]
        return [(A(b, attr), st)]

    def e_Subscript(self, e, st, fr):
        out = []
        for (b, k), s in self.evals([e.value, e.slice], st, fr):
            out.append((self.index(b, k, s), s))
        return out

    def index(self, b, k, st):
        if k[0] == "t" and len(k[1]) > 1 and all(x[0] == "sl" for x in k[1]):        # x[a:b, :] is x[a:b]
            ks = k[1]
            while len(ks) > 1 and ks[-1] is FULL:
                ks = ks[:-1]
            k = T("t", ks) if len(ks) > 1 else ks[0]
        if b[0] == "i" and k[0] == "sl" and b[2][0] == "t" and b[2][1] and b[2][1][0] is FULL and all(x[0] == "sl" for x in b[2][1]):
            return T("i", b[1], T("t", (k,) + b[2][1][1:]))                         # x[:, s][t] is x[t, s]
        if b[0] == "i" and b[2][0] == "sl" and k[0] == "t" and k[1] and k[1][0] is FULL and all(x[0] == "sl" for x in k[1]):
            return T("i", b[1], T("t", (b[2],) + k[1][1:]))                         # x[t][:, s] is x[t, s]
        if b[0] in ("t", "l") and k[0] == "c" and isinstance(k[1], int) and -len(b[1]) <= k[1] < len(b[1]):
            return b[1][k[1]]
        if b[0] == "d":
            for kk, vv in reversed(b[1]):
                if kk is k:
                    return vv
        if b[0] == "a" and b[2] == "__dict__":
            if k[0] == "c" and isinstance(k[1], str):
                return st.heap.get((b[1], k[1]), A(b[1], k[1]))
            return T("call", G("getattr"), (b[1], k), ())
        if b[0] == "call" and b[1][0] == "g" and b[1][1] == "vars" and len(b[2]) == 1:
            return T("call", G("getattr"), (b[2][0], k), ())
        if b[0] == "upd" and b[2] is k:
            return b[3]
        if k[0] == "idx" and k[1] is b:
            return self.elem(b) if len(k) == 2 else second(self.elem(b), k[2])
        if b[0] == "comp" and b[1] == "list" and b[2][0] != "t" and not b[4]:
            pass
        return T("i", b, k)

    def e_Slice(self, e, st, fr):
        parts = [x for x in (e.lower, e.upper, e.step)]
        res = [((), st)]
        for p in parts:
            nxt = []
            for vs, s in res:
                if p is None:
                    nxt.append((vs + (NONE,), s))
                else:
                    nxt += [(vs + (v,), s2) for v, s2 in self.eval(p, s, fr)]
            res = nxt
        return [(T("sl", NONE, *vs[1:]) if vs[0] == C(0) and vs[2] is NONE else T("sl", *vs), s) for vs, s in res]

    def e_Tuple(self, e, st, fr):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return self._starred_seq("t", e, st, fr)
        return [(T("t", vs), s) for vs, s in self.evals(e.elts, st, fr)]

    def e_List(self, e, st, fr):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return self._starred_seq("l", e, st, fr)
        return [(T("l", vs), s) for vs, s in self.evals(e.elts, st, fr)]

    def _starred_seq(self, kind, e, st, fr):
        out = []
        for vs, s in self.evals([x.value if isinstance(x, ast.Starred) else x for x in e.elts], st, fr):
            items = []
            ok = True
            for x, v in zip(e.elts, vs):
                if isinstance(x, ast.Starred):
                    if v[0] in ("t", "l"):
                        items += list(v[1])
                    else:
                        ok = False
                        items.append(T("star", v))
                else:
                    items.append(v)
            out.append((T(kind if ok else kind + "s", tuple(items)), s))
        return out

    def e_Set(self, e, st, fr):
        return [(T("set", vs), s) for vs, s in self.evals(e.elts, st, fr)]

    def e_Starred(self, e, st, fr):
        return [(T("star", v), s) for v, s in self.eval(e.value, st, fr)]

    def e_Dict(self, e, st, fr):
        res = [((), st)]
        for k, v in zip(e.keys, e.values):
            nxt = []
            for items, s in res:
                if k is None:
                    for vv, s2 in self.eval(v, s, fr):
                        if vv[0] == "d":
                            nxt.append((items + vv[1], s2))
                        else:
                            nxt.append((items + ((T("dstar"), vv),), s2))
                    continue
                for (kk, vv), s2 in self.evals([k, v], s, fr):
                    nxt.append((items + ((kk, vv),), s2))
            res = nxt
        return [(T("d", items), s) for items, s in res]

    def e_BinOp(self, e, st, fr):
        op = OPS[type(e.op)]
        return [(mk_bin(op, a, b), s) for (a, b), s in self.evals([e.left, e.right], st, fr)]

    def e_UnaryOp(self, e, st, fr):
        out = []
        for v, s in self.eval(e.operand, st, fr):
            if isinstance(e.op, ast.Not):
                out.append((mk_not(v), s))
            elif isinstance(e.op, ast.USub):
                out.append((C(-v[1]) if v[0] == "c" and isinstance(v[1], (int, float)) else T("u", "-", v), s))
            elif isinstance(e.op, ast.UAdd):
                out.append((v, s))
            else:
                out.append((T("u", "~", v), s))
        return out

    def e_Compare(self, e, st, fr):
        ops = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Is: "is", ast.IsNot: "is not",
               ast.In: "in", ast.NotIn: "not in"}
        out = []
        for vs, s in self.evals([e.left] + e.comparators, st, fr):
            parts = [mk_cmp(ops[type(o)], a, b) for o, a, b in zip(e.ops, vs, vs[1:])]
            out.append((parts[0] if len(parts) == 1 else T("bool", "and", tuple(parts)), s))
        return out

    def e_BoolOp(self, e, st, fr):
        # value context: short circuit by branching on each operand but the last
        is_and = isinstance(e.op, ast.And)
        out, cur = [], [st]
        for i, x in enumerate(e.values):
            nxt = []
            for s in cur:
                for v, s2 in self.eval(x, s, fr):
                    if s2.status != "normal" or i == len(e.values) - 1:
                        out.append((v, s2))
                        continue
                    for b, s3 in self.split(v, s2):
                        if b is is_and:
                            nxt.append(s3)
                        else:
                            # boolean valued operands decide the value
                            out.append((C(b) if v[0] in ("cmp", "not", "bool", "isinstance") else v, s3))
            cur = nxt
        return out

    def e_IfExp(self, e, st, fr):
        out = []
        for b, s in self.branch(e.test, st, fr):
            out += self.eval(e.body if b else e.orelse, s, fr) if s.status == "normal" else [(T("dead"), s)]
        return out

    def e_NamedExpr(self, e, st, fr):
        out = []
        for v, s in self.eval(e.value, st, fr):
            s.env[e.target.id] = v
            out.append((v, s))
        return out

    def e_Lambda(self, e, st, fr):
        fn = ast.FunctionDef(name="<lambda>", args=e.args, body=[ast.copy_location(ast.Return(e.body), e)], decorator_list=[], lineno=e.lineno,
                             col_offset=e.col_offset)
        f = Func("<lambda>", fn, fr.func.module, None, fr.func)
        self.uid += 1
        t = T("clos", self.uid, "<lambda>")
        self.closures[t] = (f, st.env, fr)
        return [(t, st)]

    def e_JoinedStr(self, e, st, fr):
        return [(T("str", fr.func.where(e)), st)]
    e_FormattedValue = e_JoinedStr

    def e_Yield(self, e, st, fr):
        if e.value is None:
            return [(self.fresh("yield"), st)]
        out = []
        for v, s in self.eval(e.value, st, fr):
            self.ev(s, "yield", e, fr, value=v)
            out.append((self.fresh("yield"), s))
        return out

    def e_YieldFrom(self, e, st, fr):
        out = []
        for v, s in self.eval(e.value, st, fr):
            self.ev(s, "yieldfrom", e, fr, value=v)
            out.append((self.fresh("yield"), s))
        return out

    def e_Await(self, e, st, fr):
        return self.eval(e.value, st, fr)

    def e_ListComp(self, e, st, fr):
        return self.comp(e, "list", st, fr)

    def e_GeneratorExp(self, e, st, fr):
        return self.comp(e, "list", st, fr)

    def e_SetComp(self, e, st, fr):
        return self.comp(e, "set", st, fr)

    def e_DictComp(self, e, st, fr):
        return self.comp(e, "dict", st, fr)

    def comp(self, e, kind, st, fr):
        elt = ast.Tuple([e.key, e.value], ast.Load()) if kind == "dict" else e.elt
        if kind == "dict":
            ast.copy_location(elt, e)
        saved = dict(st.env)

        def unrolled(gens, s):
            g = gens[0]
            res = []
            for it, s1 in self.eval(g.iter, s, fr):
                items = self.loop_items(it)
                if items is None:
                    return None
                cur = [((), s1)]
                for x in items:
                    nxt = []
                    for vals, s2 in cur:
                        for s3 in self.assign(g.target, x, s2, fr, e):
                            sts = [(True, s3)]
                            for c in g.ifs:
                                n2 = []
                                for ok, s4 in sts:
                                    n2 += self.branch(c, s4, fr) if ok else [(ok, s4)]
                                sts = n2
                            for ok, s4 in sts:
                                if not ok:
                                    nxt.append((vals, s4))
                                else:
                                    nxt += [(vals + (v,), s5) for v, s5 in self.eval(elt, s4, fr)]
                    cur = nxt
                res += cur
            return res
        if len(e.generators) == 1:
            probe = self.eval(e.generators[0].iter, st.copy(), fr)
            if all(self.loop_items(it) is not None for it, _ in probe):
                r = unrolled(e.generators, st)
                out = []
                for vals, s in r:
                    s.env = dict(saved, **{k: v for k, v in s.env.items() if k in saved})
                    for n in ast.walk(e.generators[0].target):
                        if isinstance(n, ast.Name):
                            if n.id in saved:
                                s.env[n.id] = saved[n.id]
                            else:
                                s.env.pop(n.id, None)
                    if kind == "dict":
                        out.append((T("d", tuple((v[1][0], v[1][1]) for v in vals)), s))
                    else:
                        out.append((T("l" if kind == "list" else "set", vals), s))
                return out
        states = [((), (), st)]
        for g in e.generators:
            nxt = []
            for its, ifs, s in states:
                for it, s2 in self.eval(g.iter, s, fr):
                    s2.loops = s2.loops + (iterbase(it),)
                    for s3 in self.assign(g.target, self.elem(it), s2, fr, e):
                        cs = ()
                        for c in g.ifs:
                            v, s3 = self.eval(c, s3, fr)[0]
                            cs += (v,)
                        nxt.append((its + (iterbase(it),), ifs + cs, s3))
            states = nxt
        out = []
        for its, ifs, s in states:
            for c in ifs:
                s.conds.setdefault(c, True)
            vals = self.eval(elt, s, fr)
            if len(vals) > 1:
                t = T("alts", tuple((tuple((c, v) for c, v in s2.conds.items() if s.conds.get(c) is not v or True), x) for x, s2 in vals))
                # keep the state with the most events, drop branch facts about single elements
                ss = max((s2 for _, s2 in vals), key=lambda q: len(q.events))
            else:
                t, ss = vals[0]
            for c in ifs:
                ss.conds.pop(c, None)
            ss.loops = st.loops if not its else ss.loops[:len(ss.loops) - len(its)]
            for g in e.generators:
                for n in ast.walk(g.target):
                    if isinstance(n, ast.Name):
                        if n.id in saved:
                            ss.env[n.id] = saved[n.id]
                        else:
                            ss.env.pop(n.id, None)
            out.append((T("comp", kind, t, its[0] if len(its) == 1 else T("t", its), ifs), ss))
        return out

    # ------------------------------------------------------------------ calls
    def e_Call(self, e, st, fr):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and "super" not in st.env:
            owner = fr.func.cls or (fr.owner.cls if fr.owner else None)
            if owner is not None:
                recv = fr.recv or owner
                if e.args:
                    v = self.eval(e.args[0], st, fr)[0][0]
                    c = self.prog.find_cls(v[1]) if v[0] == "cls" else None
                    owner = c or owner
                return [(T("super", recv.qual, owner.qual, fr.selfterm or T("self")), st)]
        out = []
        for f, s in self.eval(e.func, st, fr):
            if s.status != "normal":
                out.append((T("dead"), s))
                continue
            arg_exprs = [a.value if isinstance(a, ast.Starred) else a for a in e.args]
            for vs, s2 in self.evals(arg_exprs + [k.value for k in e.keywords], s, fr):
                if s2.status != "normal":
                    out.append((T("dead"), s2))
                    continue
                args = []
                for a, v in zip(e.args, vs):
                    if isinstance(a, ast.Starred):
                        while v[0] == "b" and v[1] == "+" and v[2][0] in ("t", "l"):
                            args += list(v[2][1])
                            v = v[3]
                        if v[0] in ("t", "l"):
                            args += list(v[1])
                        else:
                            args.append(T("star", v))
                    else:
                        args.append(v)
                kws = []
                for k, v in zip(e.keywords, vs[len(e.args):]):
                    if k.arg is None:
                        if v[0] == "d" and all(kk[0] == "c" for kk, _ in v[1]):
                            kws += [(kk[1], vv) for kk, vv in v[1]]
                        else:
                            kws.append(("**", v))
                    else:
                        kws.append((k.arg, v))
                out += self.apply(f, args, kws, s2, fr, e)
        return out

    def apply(self, f, args, kws, st, fr, node):
        """Call of function value f."""
        k = f[0]
        if k == "fn":
            func = self.prog.func(f[1])
            return self.call_func(func, None, None, args, kws, st, fr, node, fterm=f)
        if k == "bm":
            func = self._func(f[2])
            recv = self.prog.find_cls(f[3])
            self_t = f[1]
            if func.is_static:
                return self.call_func(func, recv, None, args, kws, st, fr, node, fterm=f)
            if func.is_classmethod:
                return self.call_func(func, recv, T("cls", recv.qual), args, kws, st, fr, node, fterm=f)
            return self.call_func(func, recv, self_t, args, kws, st, fr, node, fterm=f)
        if k == "um" and args:
            func = self._func(f[1])
            recv = self.typeof(args[0]) or (fr.recv if args[0] is fr.selfterm else None) or self.prog.find_cls(f[2])
            return self.call_func(func, recv, args[0], args[1:], kws, st, fr, node, fterm=T("bm", args[0], f[1], recv.qual))
        if k == "clos":
            func, env, ofr = self.closures[f]
            return self.call_func(func, ofr.recv, None, args, kws, st, fr, node, fterm=f, closure=(env, ofr))
        if k == "cls":
            return self.construct(f, args, kws, st, fr, node)
        if k == "g":
            r = self.builtin(f, args, kws, st, fr, node)
            if r is not None:
                return r
            name = f[1].split(".")[-1]
            if f[1].startswith(EXTERNAL_MATH) and FN_ALIAS.get(name, name) in TENSOR_FN and args:
                return [(self.tensor_fn(FN_ALIAS.get(name, name), args, kws, st, fr, node, f), st)]
            if name == "shuffle" and args:
                self.ev(st, "mut", node, fr, target=args[0], attr=name, value=None)
                new = self.draw(T("call", f, tuple(args), tuple(kws)), st, node, fr)
                if isinstance(node, ast.Call) and node.args:
                    self.writeback(node.args[0], new, st, fr)
                return [(C(None), st)]
            if f[1].startswith("torch.") and name.endswith("_") and not name.endswith("__") and args:
                self.ev(st, "mut", node, fr, target=args[0], attr=name, value=None)
        if k == "a":
            base, name = f[1], f[2]
            # containers known exactly
            if base[0] in ("l",) and name in ("append", "extend", "insert", "pop", "index", "copy", "reverse"):
                r = self.list_method(base, name, args, st, fr, node)
                if r is not None:
                    return r
            if base[0] == "a" and base[2] == "__dict__" and name == "update" and args:
                for (o, at), hv in list(st.heap.items()):
                    if o is base[1]:
                        st.heap[(o, at)] = T("upd", hv, T("str", "update"), args[0])
            if base[0] == "d" and name in ("get", "pop", "update", "copy", "setdefault"):
                r = self.dict_method(base, name, args, kws, st, fr, node)
                if r is not None:
                    return r
            if name.endswith("_") and not name.endswith("__") and not name.startswith("_"):
                pure = FN_ALIAS.get(name[:-1], name[:-1])
                if pure in ("copy", "set"):
                    new = args[0] if args else base
                elif pure in ("zero",):
                    new = C(0)
                elif pure == "fill":
                    new = args[0] if args else base
                elif pure in ("share_memory", "resize"):
                    self.ev(st, "call", node, fr, fn=f, args=tuple(args), kws=tuple(kws))
                    return [(base, st)]
                elif pure == "requires_grad":
                    v = args[0] if args else (kws[0][1] if kws else C(True))
                    self.ev(st, "store", node, fr, target=base, attr="requires_grad", value=v)
                    return [(base, st)]
                elif pure in TENSOR_FN or pure in BIN_FN:
                    new = self.tensor_fn(pure, [base] + args, kws, st, fr, node, f, quiet=True)
                else:
                    new = T("call", T("tm", name), tuple([base] + args), tuple(kws))
                    if pure in RANDOM:
                        new = self.draw(new, st, node, fr)
                self.ev(st, "mut", node, fr, target=base, attr=name, value=new, args=tuple(args), kws=tuple(kws))
                if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute):
                    self.writeback(node.func.value, new, st, fr)
                return [(new, st)]
            nm = FN_ALIAS.get(name, name)
            if nm in TENSOR_FN and base[0] not in ("super", "mod") and id(node) not in self.discarded:
                return [(self.tensor_fn(nm, [base] + args, kws, st, fr, node, f), st)]
        self.ev(st, "call", node, fr, fn=f, args=tuple(args), kws=tuple(kws))
        t = T("call", f, tuple(args), tuple(kws))
        if k == "g" and f[1].split(".")[-1] in RANDOM and f[1].split(".")[0] in ("torch", "numpy", "np", "random"):
            t = self.draw(t, st, node, fr)
        return [(t, st)]

    def _func(self, qual):
        return self.prog.func(qual)

    def tensor_fn(self, name, args, kws, st, fr, node, f, quiet=False):
        if not quiet:
            self.ev(st, "call", node, fr, fn=T("tm", name), args=tuple(args), kws=tuple(kws))
        if name in BIN_FN and len(args) == 2 and not kws:
            return mk_bin(BIN_FN[name], args[0], args[1])
        if name == "neg" and len(args) == 1:
            return T("u", "-", args[0])
        if name in ("t",) and len(args) == 1:
            return A(args[0], "T")
        t = T("call", T("tm", name), tuple(args), tuple(sorted(kws, key=lambda x: x[0])))
        return self.draw(t, st, node, fr) if name in RANDOM else t

    def draw(self, t, st, node, fr):
        """Every random draw is a value of its own."""
        k = sum(1 for e in st.events if e.kind == "draw" and e.value is t)
        self.ev(st, "draw", node, fr, value=t)
        return T("draw", k, t)

    def list_method(self, base, name, args, st, fr, node):
        lv = node.func.value if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) else None
        if name == "append" and args:
            new = T("l", base[1] + (args[0],))
        elif name == "extend" and args and args[0][0] in ("l", "t"):
            new = T("l", base[1] + args[0][1])
        elif name == "extend" and len(args) == 1:
            x = args[0]
            if not (x[0] == "comp" and x[1] == "list"):
                x = T("comp", "list", x[2], *x[3:]) if x[0] == "comp" and x[1] == "gen" else T("comp", "list", self.elem(x), iterbase(x), ())
            new = mk_bin("+", base, x)
        elif name == "insert" and len(args) == 2 and args[0][0] == "c":
            i = args[0][1]
            new = T("l", base[1][:i] + (args[1],) + base[1][i:])
        elif name == "copy":
            return [(base, st)]
        elif name == "pop" and base[1] and (not args or (args[0][0] == "c" and -len(base[1]) <= args[0][1] < len(base[1]))):
            i = args[0][1] if args else -1
            i = i % len(base[1])
            new = T("l", base[1][:i] + base[1][i + 1:])
            if lv is not None:
                self.writeback(lv, new, st, fr)
            return [(base[1][i], st)]
        else:
            return None
        if lv is not None:
            self.writeback(lv, new, st, fr)
        return [(NONE, st)]

    def dict_method(self, base, name, args, kws, st, fr, node):
        lv = node.func.value if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) else None
        if name == "copy":
            return [(base, st)]
        if name == "get" and args:
            if any(k is args[0] for k, _ in base[1]):
                return [(self.index(base, args[0], st), st)]
            if args[0][0] == "c" and all(k[0] == "c" for k, _ in base[1]):
                return [(args[1] if len(args) > 1 else NONE, st)]
            return None
        if name == "update":
            items = base[1]
            if args and args[0][0] == "d":
                items = tuple((k, v) for k, v in items if not any(k is k2 for k2, _ in args[0][1])) + args[0][1]
            elif args:
                items = items + ((T("dstar"), args[0]),)
            items += tuple((C(k), v) for k, v in kws if k != "**")
            if lv is not None:
                self.writeback(lv, T("d", items), st, fr)
            return [(NONE, st)]
        if name == "pop" and args and any(k is args[0] for k, _ in base[1]):
            v = self.index(base, args[0], st)
            if lv is not None:
                self.writeback(lv, T("d", tuple((k, x) for k, x in base[1] if k is not args[0])), st, fr)
            return [(v, st)]
        return None

    def builtin(self, f, args, kws, st, fr, node):
        n = f[1]
        if n == "typing.cast" and len(args) == 2:
            return [(args[1], st)]
        if n == "getattr" and len(args) == 3 and args[1][0] == "c" and isinstance(args[1][1], str) and args[2][0] == "c":
            b, a = args[0], args[1][1]
            cls = self.typeof(b)
            if (b, a) not in st.heap and b[0] not in ("mod", "g", "cls", "super", "self") and not (cls is not None and cls.lookup(a) is not None):
                out = []
                for v, s in self.split(T("call", G("hasattr"), (b, args[1]), ()), st):
                    out += self.getattr(b, a, s, fr, node) if v else [(args[2], s)]
                return out
        if n == "getattr" and len(args) >= 2 and args[1][0] == "c":
            return self.getattr(args[0], args[1][1], st, fr, node)
        if n == "divmod" and len(args) == 2:
            return [(T("t", (mk_bin("//", *args), mk_bin("%", *args))), st)]
        if n in ("any", "all") and len(args) == 1 and args[0][0] in ("l", "t") and args[0][1] and not kws:
            xs = args[0][1]
            return [(xs[0] if len(xs) == 1 else T("bool", "or" if n == "any" else "and", tuple(xs)), st)]
        if n == "setattr" and len(args) == 3 and args[1][0] == "c":
            return [(NONE, s) for s in self.store(args[0], args[1][1], args[2], st, fr, node)]
        if n == "isinstance" and len(args) == 2:
            ty = self.typeof(args[0])
            opts = args[1][1] if args[1][0] == "t" else (args[1],)
            if ty is not None and (args[0][0] in ("call", "new", "self") or args[0] in self.types):
                if any(o[0] == "cls" and ty.is_sub(o[1]) for o in opts):
                    return [(TRUE, st)]
                if args[0][0] in ("call", "new", "self") and all(o[0] == "cls" for o in opts):
                    return [(FALSE, st)]
            if args[0][0] == "c" and isinstance(args[0][1], (int, float)) and not isinstance(args[0][1], bool) and all(o[0] == "g" for o in opts) \
                    and all(o[1].split(".")[-1] in ("int", "float", "Number", "Tensor", "str", "list", "tuple", "dict", "bool") for o in opts):
                py = {type(args[0][1]).__name__, "Number"}
                return [(C(any(o[1].split(".")[-1] in py for o in opts)), st)]
            if args[0][0] == "c" and args[0][1] is None and all(o[0] in ("cls", "g") for o in opts):
                return [(FALSE, st)]
            if args[0][0] in ("l", "t", "d"):
                py = {"l": "list", "t": "tuple", "d": "dict"}[args[0][0]]
                return [(C(any(o[0] == "g" and o[1].split(".")[-1] == py for o in opts)), st)]
            if len(opts) == 1:
                return [(T("isinstance", args[0], opts[0]), st)]
            return [(T("bool", "or", tuple(T("isinstance", args[0], o) for o in opts)), st)]
        if n == "len" and len(args) == 1 and args[0][0] in ("l", "t", "d"):
            return [(C(len(args[0][1])), st)]
        if n in ("list", "tuple") and len(args) == 1 and args[0][0] in ("l", "t"):
            return [(T("l" if n == "list" else "t", args[0][1]), st)]
        if n in ("list", "tuple") and len(args) == 1 and args[0][0] == "comp" and args[0][1] == "list":
            return [(args[0], st)]
        if n in ("list", "dict", "tuple") and not args:
            if n == "dict":
                return [(T("d", tuple((C(k), v) for k, v in kws)), st)]
            return [(T("l" if n == "list" else "t", ()), st)]
        if n == "dict" and len(args) == 1 and not kws and args[0][0] == "d":
            return [(args[0], st)]
        if n in ("max", "min") and len(args) == 2 and all(a[0] == "c" for a in args):
            return [(C({"max": max, "min": min}[n](args[0][1], args[1][1])), st)]
        if n == "bool" and len(args) == 1:
            r = self.truth(args[0], st)
            return [(C(r), st)] if r is not None else [(args[0], st)]
        if n in ("float", "int") and len(args) == 1 and args[0][0] == "c" and isinstance(args[0][1], (int, float)):
            return [(C({"float": float, "int": int}[n](args[0][1])), st)]
        if n == "abs" and len(args) == 1:
            return [(T("call", T("tm", "abs"), tuple(args), ()), st)]
        if n == "type" and len(args) == 1:
            ty = self.typeof(args[0])
            if ty is not None and args[0][0] in ("self", "new", "call"):
                return [(T("cls", ty.qual), st)]
        return None

    def construct(self, f, args, kws, st, fr, node):
        cls = self.prog.find_cls(f[1])
        self.ev(st, "call", node, fr, fn=f, args=tuple(args), kws=tuple(kws))
        if cls is not None and self.inline_ctor(cls):
            self.uid += 1
            obj = T("new", cls.qual, self.uid)
            init = cls.lookup("__init__")
            if init is None:
                if cls.is_dataclass:
                    names = list(cls.fields())
                    for n, v in list(zip(names, args)) + [(k, v) for k, v in kws if k != "**"]:
                        st.heap[(obj, n)] = v
                return [(obj, st)]
            return [(obj, s) for _, s in self.call_func(init, cls, obj, args, kws, st, fr, node)]
        return [(T("call", f, tuple(args), tuple(kws)), st)]

    def call_func(self, func, recv, self_t, args, kws, st, fr, node, fterm=None, closure=None):
        if fterm is None:
            fterm = T("bm", self_t, func.qual, recv.qual) if self_t is not None and recv is not None else T("fn", func.qual)
        opaque = (len(fr.stack) > self.depth or func.qual in fr.stack[-self.depth:] and fr.stack.count(func.qual) > 1
                  or func.is_abstract or _is_generator(func.node) or any(a[0] == "star" for a in args) or any(k == "**" for k, _ in kws)
                  or (closure is None and self.stop(func, recv, args, kws)))
        bound = None if opaque else self.bind(func, self_t, args, kws, st, fr)
        if bound is None:
            self.ev(st, "call", node, fr, fn=fterm, args=tuple(args), kws=tuple(kws))
            return [(T("call", fterm, tuple(args), tuple(kws)), st)]
        self.inlined.add(func.qual)
        self.ev(st, "inl", node, fr, fn=fterm, args=tuple(args), kws=tuple(kws))
        saved = st.env
        env = {}
        nfr = Frame(func, recv if func.cls is not None else (closure[1].recv if closure else None), fr.stack + (func.qual,))
        if closure is not None:
            env.update(closure[0])
            nfr.selfterm = closure[1].selfterm
            nfr.owner = closure[1].func if closure[1].func.cls else closure[1].owner
        elif func.cls is not None and not func.is_static:
            nfr.selfterm = self_t
        env.update(bound)
        places = self.places(func, self_t, node, st)
        for n in places:
            env["@" + n] = env[n]
        st.env = env
        out = []
        for s in self.block(func.node.body, [st], nfr):
            changed = [(n, s.env.get("@" + n, s.env.get("!" + n))) for n in places]
            s.env = dict(saved)
            for n, v in changed:
                if v is not None and v is not bound[n]:
                    self.writeback(places[n], v, s, fr)
            if s.status == "return":
                v, s.status, s.val = s.val, "normal", None
            elif s.status == "normal":
                v = NONE
            else:
                v = T("dead")
            self.ev(s, "ret", node, nfr, fn=fterm, value=v)
            out.append((v, s))
        # merge equal outcomes
        if not self.merging:
            return out
        by = {}
        for v, s in out:
            k = (v, s.key())
            if k in by:
                o = by[k][1]
                o.conds = {c: b for c, b in o.conds.items() if s.conds.get(c) is b}
            else:
                by[k] = (v, s)
        return list(by.values())

    def places(self, func, self_t, node, st):
        """Parameters of a called function that denote a variable of the caller: name -> its expression."""
        if not isinstance(node, ast.Call):
            return {}
        a = func.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        if func.cls is not None and not func.is_static:
            pos = pos[1:]
        out = {}
        for n, e in zip(pos, node.args):
            if isinstance(e, ast.Starred):
                break
            out[n] = e
        for k in node.keywords:
            if k.arg in pos:
                out[k.arg] = k.value
        return {n: e for n, e in out.items() if isinstance(e, ast.Name) and e.id in st.env}

    def bind(self, func, self_t, args, kws, st, fr):
        a = func.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        vals = list(args)
        if func.cls is not None and not func.is_static:
            vals = [self_t] + vals
        if len(vals) > len(pos):
            if not a.vararg:
                return None
            env[a.vararg.arg] = T("t", tuple(vals[len(pos):]))
            vals = vals[:len(pos)]
        elif a.vararg:
            env[a.vararg.arg] = T("t", ())
        for n, v in zip(pos, vals):
            env[n] = v
        extra = []
        for k, v in kws:
            if k in pos or k in [x.arg for x in a.kwonlyargs]:
                env[k] = v
            elif a.kwarg:
                extra.append((C(k), v))
            else:
                return None
        if a.kwarg:
            env[a.kwarg.arg] = T("d", tuple(extra))
        for n in pos + [x.arg for x in a.kwonlyargs]:
            if n not in env:
                d = func.default(n)
                if d is None:
                    return None
                dfr = Frame(func, None, fr.stack)
                s = State()
                env[n] = self.eval(d, s, dfr)[0][0]
        return env


class Frame:
    __slots__ = ("func", "recv", "stack", "selfterm", "owner")

    def __init__(self, func, recv, stack):
        self.func, self.recv, self.stack = func, recv, stack
        self.selfterm = None
        self.owner = None


_GEN = {}


def filters(n):
    """A loop that may build a list or dict under a condition."""
    if not any(isinstance(x, ast.If) for x in ast.walk(n)):
        return False
    return any((isinstance(x, ast.Attribute) and x.attr == "append") or (isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store)) for x in ast.walk(n))


def targets(n):
    """Names the body of a loop assigns."""
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}


def _is_generator(node):
    r = _GEN.get(id(node))
    if r is None or r[0] is not node:
        found = False
        stack = list(node.body)
        while stack:
            x = stack.pop()
            if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            if isinstance(x, (ast.Yield, ast.YieldFrom)):
                found = True
                break
            stack.extend(ast.iter_child_nodes(x))
        r = _GEN[id(node)] = (node, found)
    return r[1]


def decor(e):
    parts = []
    while isinstance(e, ast.Attribute):
        parts.append(e.attr)
        e = e.value
    if isinstance(e, ast.Name):
        parts.append(e.id)
    return parts[0] if parts else ""


def _load(t):
    n = {ast.Name: lambda: ast.Name(t.id, ast.Load()), ast.Attribute: lambda: ast.Attribute(t.value, t.attr, ast.Load()),
         ast.Subscript: lambda: ast.Subscript(t.value, t.slice, ast.Load())}[type(t)]()
    return ast.copy_location(n, t)


FULL = T("sl", NONE, NONE, NONE)


def second(t, r=2):
    """The elements of a loop's second (or later) round."""
    if not isinstance(t, tuple):
        return t
    if isinstance(t, Term):
        if t[0] in ("elem", "idx") and len(t) == 2:
            return T(t[0], t[1], r)
        return T(*(second(x, r) if isinstance(x, tuple) else x for x in t))
    return tuple(second(x, r) for x in t)


def reads(e):
    return {x.id for x in ast.walk(e) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}


def assigns(n):
    return [x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))]


CARRIED = {}


def carried(loop):
    """Variables that hand something from one round of a loop to the next, other than to themselves only."""
    if loop in CARRIED:
        return CARRIED[loop]
    exposed, assigned = set(), set()

    def target(t, have):
        if isinstance(t, ast.Name):
            assigned.add(t.id)
            return have | {t.id}
        if isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                have = target(x, have)
            return have
        if isinstance(t, ast.Starred):
            return target(t.value, have)
        exposed.update(reads(t) - have)
        return have

    def block(b, have):
        for x in b:
            have = stmt(x, have)
        return have

    def stmt(x, have):
        if isinstance(x, (ast.Assign, ast.AnnAssign)) and x.value is not None:
            ts = x.targets if isinstance(x, ast.Assign) else [x.target]
            own = {ts[0].id} if len(ts) == 1 and isinstance(ts[0], ast.Name) else set()
            exposed.update(reads(x.value) - have - own)
            for y in ast.walk(x.value):
                if isinstance(y, ast.IfExp):
                    exposed.update(reads(y.test) & own - have)
            used = bool(reads(x.value) & own)
            for t in ts:
                if used:
                    assigned.update(own)
                else:
                    have = target(t, have)
            return have
        if isinstance(x, ast.AugAssign):
            exposed.update(reads(x.value) - have)
            if isinstance(x.target, ast.Name):
                assigned.add(x.target.id)
            else:
                exposed.update(reads(x.target) - have)
            return have
        if isinstance(x, ast.If):
            exposed.update(reads(x.test) - have)
            return block(x.body, have) & block(x.orelse, have)
        if isinstance(x, ast.For):
            exposed.update(reads(x.iter) - have)
            block(x.orelse, have)
            block(x.body, target(x.target, have))
            return have
        if isinstance(x, ast.While):
            exposed.update(reads(x.test) - have)
            block(x.body, have)
            return have
        if isinstance(x, ast.With):
            for i in x.items:
                exposed.update(reads(i.context_expr) - have)
                if i.optional_vars is not None:
                    have = target(i.optional_vars, have)
            return block(x.body, have)
        if isinstance(x, ast.Try):
            h = block(x.body, have)
            for y in x.handlers:
                block(y.body, have)
            block(x.orelse, h)
            block(x.finalbody, have)
            return h
        exposed.update(reads(x) - have)
        return have
    block(loop.body, target(loop.target, set()))
    CARRIED[loop] = exposed & assigned
    return CARRIED[loop]


def spine(body):
    """The statements every round that ends normally passes."""
    for s in body:
        yield s
        if isinstance(s, ast.If):
            if s.body and isinstance(s.body[-1], (ast.Raise, ast.Return)):
                yield from spine(s.orelse)
            elif s.orelse and isinstance(s.orelse[-1], (ast.Raise, ast.Return)):
                yield from spine(s.body)


def counter_vars(loop):
    """Variables a loop increments by one at the end of every round."""
    out = []
    if any(isinstance(x, ast.Continue) for y in loop.body for x in ast.walk(y)):
        return out
    for s in spine(loop.body):
        if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and isinstance(s.op, ast.Add) and isinstance(s.value, ast.Constant) \
                and s.value.value == 1 and sum(assigns(y).count(s.target.id) for y in loop.body) == 1 and s.target.id not in assigns(loop.target):
            out.append(s.target.id)
    return out


COUNTING = {}


def counting(loop, st):
    """`while i < n: ...; i += 1`, from i = 0, as `for i in range(n)` (with i counted on afterwards); None when it is not one."""
    t = loop.test
    if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and loop.body):
        return None
    i, n = (t.left, t.comparators[0]) if isinstance(t.ops[0], ast.Lt) else (t.comparators[0], t.left) if isinstance(t.ops[0], ast.Gt) else (None, None)
    last = loop.body[-1]
    if not isinstance(i, ast.Name) or st.env.get(i.id) != C(0) or not isinstance(last, ast.AugAssign) or i.id not in counter_vars(
            ast.For(target=ast.Name(" none", ast.Store()), body=loop.body)) or not isinstance(last.target, ast.Name) or last.target.id != i.id:
        return None
    if any(x in reads(n) for y in loop.body for x in assigns(y)):
        return None
    if loop not in COUNTING:
        f = ast.For(target=ast.Name(i.id, ast.Store()), iter=ast.Call(ast.Name("range", ast.Load()), [n], []), body=loop.body[:-1] or [ast.Pass()],
                    orelse=loop.orelse)
        COUNTING[loop] = ast.fix_missing_locations(ast.copy_location(f, loop))
    return COUNTING[loop]


def iterbase(it):
    """What is iterated, without how: enumerate(x), list(x), range(len(x)), d.items() go through x and d."""
    while it[0] == "call":
        f = it[1]
        if f[0] == "g" and f[1] in ("enumerate", "list", "tuple", "iter") and it[2]:
            it = it[2][0]
        elif f[0] == "g" and f[1] == "range" and len(it[2]) == 1 and it[2][0][0] == "call" and it[2][0][1][0] == "g" and it[2][0][1][1] == "len" \
                and len(it[2][0][2]) == 1:
            it = it[2][0][2][0]
        elif f[0] == "a" and f[2] in ("items", "keys", "values") and not it[2] and not it[3]:
            it = f[1]
        elif f[0] == "g" and f[1] == "zip" and it[2]:
            it = it[2][0]
        else:
            break
    return it


NUMBERS = {}


def number_fields(prog):
    """Names that are fields of dataclasses, annotated as numbers wherever they are declared, and that no class sets on itself."""
    if id(prog) not in NUMBERS:
        good, bad = set(), set()
        for c in (c for m in prog.modules.values() for c in m.classes.values()):
            for n, (v, ann) in c.attrs.items():
                if ann is None:
                    continue
                (good if c.is_dataclass and isinstance(ann, ast.Name) and ann.id in ("float", "int", "bool") else bad).add(n)
            for f in c.methods.values():
                for x in ast.walk(f.node):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == "self":
                        bad.add(x.attr)
        NUMBERS[id(prog)] = (prog, good - bad)
    return NUMBERS[id(prog)][1]


def _scalar(t):
    return t[0] == "c" or (t[0] == "b" and _scalar(t[2]) and _scalar(t[3]))
