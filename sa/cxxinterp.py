"""Path-sensitive value-flow over the lowered C++ bodies (cxxfacts), the counterpart of interp.py.

Locals, parameters and memory cells are mapped to value numbers; free functions of the same file and methods of the same object are
inlined up to a bound; loops are walked once with a symbolic index; branches split on syntactic facts.  Nothing is executed and no
solver is used.
"""
from .terms import T, C, Term, walk as twalk
from .program import AnalysisBroken

NEG = {"<": ">=", ">": "<=", "<=": ">", ">=": "<", "==": "!=", "!=": "=="}
FLIP = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!="}


class TooMany(AnalysisBroken):
    pass


class CState:
    __slots__ = ("env", "mem", "facts", "events", "status", "val", "rnd", "loops")

    def __init__(self):
        self.env, self.mem, self.facts, self.events = {}, {}, {}, []
        self.status, self.val, self.rnd, self.loops = None, None, 0, ()

    def copy(self):
        s = CState()
        s.env, s.mem, s.facts, s.events = dict(self.env), dict(self.mem), dict(self.facts), list(self.events)
        s.status, s.val, s.rnd, s.loops = self.status, self.val, self.rnd, self.loops
        return s

    def path(self):
        from .terms import show
        return [("" if v else "not ") + show(k)[:120] for k, v in self.facts.items()]


def num(e):
    try:
        return float(e)
    except ValueError:
        return None


def peel(e):
    while e and e[0] in ("cast", "defarg"):
        e = e[2] if e[0] == "cast" else e[1]
    return e


def same(a, b):
    """Syntactic equality of two expressions, line numbers aside."""
    if isinstance(a, list) and isinstance(b, list):
        a, b = (peel(a) if a and isinstance(a[0], str) else a), (peel(b) if b and isinstance(b[0], str) else b)
        if a and b and a[0] in ("mcall", "call", "aug", "asg") and a[0] == b[0]:
            n = {"mcall": 4, "call": 3, "aug": 4, "asg": 3}[a[0]]
            a, b = a[:n], b[:n]
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


class CInterp:
    def __init__(self, facts, inline=None, depth=5, max_states=4000, opaque=()):
        self.facts, self.inline, self.depth, self.max_states = facts, inline, depth, max_states
        self.opaque = set(opaque)
        self.bounds = {}          # loop index -> (start, continuation condition, increment)

    # -- entry ------------------------------------------------------------------------------------
    def run(self, f, args=None, this=None, cls=None):
        st = CState()
        fr = Frame(f, this if this is not None else T("this"), cls or f.get("cls"), 0)
        for name, ty in f["params"]:
            st.env[(fr.id, name)] = (args or {}).get(name, T("par", name))
        return self.stmt(f["body"], st, fr)

    def cap(self, states):
        if len(states) > self.max_states:
            raise TooMany("too many paths")
        return states

    # -- statements ---------------------------------------------------------------------------------
    def block(self, ss, states, fr):
        for s in ss:
            out = []
            for st in states:
                if st.status is None:
                    out += self.stmt(s, st, fr)
                else:
                    out.append(st)
            states = self.cap(out)
        return states

    def stmt(self, s, st, fr):
        if not isinstance(s, list) or not s:
            return [st]
        k = s[0]
        if k == "block":
            return self.block(s[1], [st], fr)
        if k == "nop":
            return [st]
        if k == "expr":
            return [x for _, x in self.ev(s[1], st, fr)]
        if k == "decl":
            name, ty, init = s[1], s[2], s[3]
            if init is None:
                st.env[(fr.id, name)] = T("undef", name)
                return [st]
            out = []
            if ty.rstrip().endswith("&"):
                for lv, x in self.lval(init, st, fr):
                    x.env[(fr.id, name)] = T("ref", lv) if lv is not None else T("opq", name)
                    out.append(x)
                return out
            for v, x in self.ev(init, st, fr):
                x.env[(fr.id, name)] = v
                out.append(x)
            return out
        if k == "ret":
            if s[1] is None or s[1] == ["none"]:
                st.status = "ret"
                return [st]
            out = []
            for v, x in self.ev(s[1], st, fr):
                x.status, x.val = "ret", v
                out.append(x)
            return out
        if k == "if":
            out = []
            for b, x in self.cond(s[1], st, fr):
                out += self.stmt(s[2] if b else s[3], x, fr)
            return self.cap(out)
        if k == "for":
            return self.loop(s[1], s[2], s[3], s[4], st, fr)
        if k == "while":
            return self.loop(None, s[1], None, s[2], st, fr)
        if k == "do":
            return self.loop(None, None, None, s[2] if isinstance(s[2], list) and s[2] and s[2][0] == "block" else s[1], st, fr)
        if k == "forrange":
            fr.n += 1
            idx = T("iv", fr.id, fr.n)
            out = []
            for rng, x in self.ev(s[3], st, fr):
                x.env[(fr.id, s[1])] = T("elem", rng, idx) if not str(s[2]).rstrip().endswith("&") else T("ref", T("elem", rng, idx))
                for y in self.stmt(s[4], x, fr):
                    if y.status in ("break", "continue"):
                        y.status = None
                    out.append(y)
            return out
        if k == "switch":
            return self.switch(s, st, fr)
        if k in ("case",):
            return self.stmt(s[2], st, fr)
        if k == "default":
            return self.stmt(s[1], st, fr)
        if k in ("break", "continue"):
            st.status = k
            return [st]
        if k == "try":
            return self.stmt(s[1], st, fr)
        return [st]

    def switch(self, s, st, fr):
        body = s[2][1] if s[2] and s[2][0] == "block" else [s[2]]
        groups, out = [], []
        flat = []
        for x in body:
            labels = []
            while x and x[0] in ("case", "default"):
                labels.append(x[1] if x[0] == "case" else None)
                x = x[2] if x[0] == "case" else x[1]
            flat.append((labels, x))
        for v, st1 in self.ev(s[1], st, fr):
            entries = [(i, l) for i, (ls, _) in enumerate(flat) for l in ls]
            has_default = any(l is None for _, l in entries)
            for i, l in entries:
                x = st1.copy()
                if l is None:
                    x.facts[T("default", v, fr.id)] = True
                else:
                    lt = self.ev(l, x, fr)[0][0]
                    x.facts[self.cmp("==", v, lt)] = True
                for y in self.block([b for _, b in flat[i:]], [x], fr):
                    if y.status == "break":
                        y.status = None
                    out.append(y)
            if not has_default:
                x = st1.copy()
                x.facts[T("default", v, fr.id)] = True
                out.append(x)
        return self.cap(out)

    def quiet(self, e, st, fr):
        """Value of a side-effect free expression in one state; None when it branches."""
        if not e:
            return None
        x = st.copy()
        n = Frame.count
        try:
            r = self.ev(e, x, fr)
        except TooMany:
            r = []
        Frame.count = n
        return r[0][0] if len(r) == 1 else None

    def loop(self, init, cond, inc, body, st, fr):
        if init:
            res = self.stmt(init, st, fr)
        else:
            res = [st]
        var = None
        x = init
        while x and x[0] == "block" and len(x[1]) == 1:
            x = x[1][0]
        if x and x[0] == "decl":
            var = x[1]
        out = []
        for st1 in res:
            fr.n += 1
            iv = T("iv", fr.id, fr.n)
            if var:
                st1.env[(fr.id, "#start")] = st1.env.get((fr.id, var))
                st1.env[(fr.id, var)] = iv
            start = st1.env.get((fr.id, "#start"))
            self.bounds[iv] = (start, self.quiet(cond, st1, fr), inc)
            st1.loops = st1.loops + (iv,)
            for y in self.stmt(body, st1, fr):
                if y.status in ("break", "continue"):
                    y.status = None
                y.loops = y.loops[:-1]
                out.append(y)
        return self.cap(out)

    # -- conditions -----------------------------------------------------------------------------------
    def cond(self, e, st, fr):
        e = peel(e)
        if e and e[0] == "bin" and e[1] in ("&&", "||"):
            out = []
            for b, x in self.cond(e[2], st, fr):
                if b == (e[1] == "||"):
                    out.append((b, x))
                else:
                    out += self.cond(e[3], x, fr)
            return out
        if e and e[0] == "un" and e[1] == "!":
            return [(not b, x) for b, x in self.cond(e[2], st, fr)]
        out = []
        for v, x in self.ev(e, st, fr):
            b = self.truth(v, x)
            if b is not None:
                out.append((b, x))
                continue
            y = x.copy()
            self.assume(v, True, x)
            self.assume(v, False, y)
            out += [(True, x), (False, y)]
        return out

    def assume(self, v, b, st):
        if v[0] == "cmp" and v[1] in (">=", "<=", "!="):
            v, b = T("cmp", NEG[v[1]], v[2], v[3]), not b
        st.facts[v] = b

    def truth(self, v, st):
        if v[0] == "c":
            return bool(v[1])
        if v in st.facts:
            return st.facts[v]
        if v[0] == "cmp":
            if v[1] in NEG:
                n = T("cmp", NEG[v[1]], v[2], v[3])
                if n in st.facts:
                    return not st.facts[n]
            if v[1] == "==" and v[3][0] in ("c", "enum"):
                for f, b in st.facts.items():
                    if b and f[0] == "cmp" and f[1] == "==" and f[2] is v[2] and f[3][0] in ("c", "enum") and f[3] is not v[3]:
                        return False
        return None

    def cmp(self, op, a, b):
        if a[0] == "c" and b[0] == "c" and isinstance(a[1], (int, float)) and isinstance(b[1], (int, float)):
            return C({"<": a[1] < b[1], ">": a[1] > b[1], "<=": a[1] <= b[1], ">=": a[1] >= b[1], "==": a[1] == b[1], "!=": a[1] != b[1]}[op])
        if a[0] == "c" and b[0] != "c":
            a, b, op = b, a, FLIP[op]
        return T("cmp", op, a, b)

    # -- lvalues ----------------------------------------------------------------------------------------
    def lval(self, e, st, fr):
        """[(cell term or None, state)]"""
        e = peel(e)
        k = e[0]
        if k == "var":
            v = st.env.get((fr.id, e[1]))
            if v is not None and v[0] == "ref":
                return [(v[1], st)]
            if fr.outer and v is None:
                return [(T("loc", fr.outer, e[1]), st)]
            return [(T("loc", fr.id, e[1]), st)]
        if k == "mem":
            b = peel(e[1])
            if b == ["this"]:
                return [(T("f", fr.this, e[2]), st)]
            return [(T("f", self.deref_obj(v), e[2]), x) for v, x in self.obj(e[1], st, fr)]
        if k == "idx":
            out = []
            for b, x in self.ev(e[1], st, fr):
                for i, y in self.ev(e[2], x, fr):
                    out.append((T("i", b, i), y))
            return out
        if k == "un" and e[1] == "*":
            return [(T("i", v, C(0)), x) for v, x in self.ev(e[2], st, fr)]
        if k == "opcall" and e[1] == "[]":
            out = []
            for b, x in self.obj(e[2][0], st, fr):
                for i, y in self.ev(e[2][1], x, fr):
                    out.append((T("i", b, i), y))
            return out
        if k == "opcall" and e[1] in ("*", "->"):
            return [(T("i", v, C(0)), x) for v, x in self.obj(e[2][0], st, fr)]
        if k == "cond":
            out = []
            for b, x in self.cond(e[1], st, fr):
                out += self.lval(e[2] if b else e[3], x, fr)
            return out
        if k in ("mcall", "call"):
            return [(v, x) for v, x in self.ev(e, st, fr)]
        return [(None, x) for _, x in self.ev(e, st, fr)]

    def deref_obj(self, v):
        return v[1] if v[0] == "ref" else v

    def obj(self, e, st, fr):
        """Object expression: its cell or its value."""
        p = peel(e)
        if p and p[0] in ("mem", "idx", "var"):
            r = []
            for lv, x in self.lval(p, st, fr):
                if lv is not None and lv[0] == "loc":
                    r.append((x.env.get((lv[1], lv[2]), lv), x))
                else:
                    r.append((self.load(lv, x), x))
            return r
        if p and p[0] == "un" and p[1] in ("*", "&"):
            return self.obj(p[2], st, fr)
        if p == ["this"]:
            return [(fr.this, st)]
        return self.ev(e, st, fr)

    def load(self, lv, st):
        if lv is None:
            return T("unknown")
        if lv[0] == "loc":
            v = st.env.get((lv[1], lv[2]))
            return v if v is not None else lv
        return st.mem.get(lv, lv)

    def store(self, lv, v, st, line, fr):
        if lv is None:
            return
        if lv[0] == "loc":
            st.env[(lv[1], lv[2])] = v
            return
        st.mem[lv] = v
        st.events.append(("w", lv, v, line, fr.f.get("file", ""), st.loops))

    # -- expressions ----------------------------------------------------------------------------------
    def ev(self, e, st, fr):
        """[(value, state)]"""
        if not isinstance(e, list) or not e:
            return [(C(None), st)]
        e = peel(e)
        k = e[0]
        if k in ("int", "float"):
            n = num(e[1])
            return [(C(n) if n is not None else T("sym", e[1]), st)]
        if k == "bool":
            return [(C(bool(e[1])), st)]
        if k == "str":
            return [(C(e[1]), st)]
        if k in ("null", "none", "zero"):
            return [(C(0.0) if k == "zero" else C(None), st)]
        if k == "enum":
            return [(T("enum", e[1].split("::")[-1]), st)]
        if k == "this":
            return [(fr.this, st)]
        if k == "gvar":
            return [(T("g", e[1]), st)]
        if k in ("var", "mem", "idx") or (k == "un" and e[1] == "*") or (k == "opcall" and e[1] in ("[]", "*", "->")):
            out = []
            for lv, x in self.lval(e, st, fr):
                v = self.load(lv, x)
                if v[0] == "ref":
                    v = self.load(v[1], x)
                out.append((v, x))
            return out
        if k == "un":
            return self.unary(e, st, fr)
        if k == "bin":
            return self.binary(e, st, fr)
        if k == "cond":
            c = peel(e[1])
            if c and c[0] == "bin" and c[1] in ("<", ">", "<=", ">="):
                mm = None
                if same(c[2], e[2]) and same(c[3], e[3]):
                    mm = "min" if c[1][0] == "<" else "max"
                elif same(c[2], e[3]) and same(c[3], e[2]):
                    mm = "max" if c[1][0] == "<" else "min"
                if mm:
                    out = []
                    for a, x in self.ev(e[2], st, fr):
                        for b, y in self.ev(e[3], x, fr):
                            out.append((T("mm", mm, a, b), y))
                    return out
            out = []
            for b, x in self.cond(e[1], st, fr):
                out += self.ev(e[2] if b else e[3], x, fr)
            return self.cap(out)
        if k == "asg":
            out = []
            for v, x in self.ev(e[2], st, fr):
                for lv, y in self.lval(e[1], x, fr):
                    self.store(lv, v, y, e[3], fr)
                    out.append((v, y))
            return out
        if k == "aug":
            out = []
            for v, x in self.ev(e[3], st, fr):
                for lv, y in self.lval(e[2], x, fr):
                    old = self.load(lv, y)
                    new = self.bin(e[1][:-1], old, v)
                    self.store(lv, new, y, e[4], fr)
                    out.append((new, y))
            return out
        if k in ("call", "mcall", "icall"):
            return self.call(e, st, fr)
        if k == "opcall":
            if e[1] == "=" and len(e[2]) == 2:
                out = []
                for v, x in self.ev(e[2][1], st, fr):
                    for lv, y in self.lval(e[2][0], x, fr):
                        self.store(lv, v, y, 0, fr)
                        out.append((v, y))
                return out
            return self.args(e[2], st, fr, lambda vs, x: [(T("op", e[1], tuple(vs)), x)])
        if k == "new":
            if e[3] in ("copy", "move") and len(e[2]) == 1:
                return self.ev(e[2][0], st, fr)
            return self.args(e[2], st, fr, lambda vs, x: [(T("new", e[1], tuple(vs)), x)])
        if k == "heapnew":
            return [(T("heapnew", e[1], fr.id, id(e)), st)]
        if k == "init":
            return self.args(e[2], st, fr, lambda vs, x: [(T("init", e[1], tuple(vs)), x)])
        if k == "throw":
            st.status = "throw"
            return [(C(None), st)]
        if k == "lambda":
            return [(T("lambda", id(e)), st)]
        if k == "delete":
            return [(C(None), x) for _, x in self.ev(e[1], st, fr)]
        sub = [c for c in e[1:] if isinstance(c, list) and c and isinstance(c[0], str)]
        return self.args(sub, st, fr, lambda vs, x: [(T("x", k, str(e[1]) if len(e) > 1 and not isinstance(e[1], list) else "", tuple(vs)), x)])

    def args(self, es, st, fr, done):
        acc = [([], st)]
        for a in es:
            nxt = []
            for vs, x in acc:
                if x.status is not None:
                    nxt.append((vs, x))
                    continue
                for v, y in self.ev(a, x, fr):
                    nxt.append((vs + [v], y))
            acc = nxt
        out = []
        for vs, x in acc:
            out += done(vs, x) if x.status is None else [(C(None), x)]
        return self.cap(out)

    def unary(self, e, st, fr):
        op = e[1]
        if op in ("++", "--", "post++", "post--"):
            out = []
            for lv, x in self.lval(e[2], st, fr):
                old = self.load(lv, x)
                new = self.bin("+" if "++" in op else "-", old, C(1.0))
                self.store(lv, new, x, 0, fr)
                out.append((old if op.startswith("post") else new, x))
            return out
        if op == "&":
            p = peel(e[2])
            if p and p[0] == "idx":
                return [(T("addr", lv) if not (lv and lv[0] == "i" and lv[2] is C(0.0)) else lv[1], x) for lv, x in self.lval(p, st, fr)]
            return [(v, x) for v, x in self.obj(e[2], st, fr)]
        out = []
        for v, x in self.ev(e[2], st, fr):
            if op == "-":
                if v[0] == "c" and isinstance(v[1], (int, float)):
                    out.append((C(-v[1]), x))
                elif v[0] == "u" and v[1] == "-":
                    out.append((v[2], x))
                else:
                    out.append((T("u", "-", v), x))
            elif op == "!":
                b = self.truth(v, x)
                out.append((C(not b) if b is not None else T("not", v), x))
            elif op == "+":
                out.append((v, x))
            else:
                out.append((T("u", op, v), x))
        return out

    def bin(self, op, a, b):
        num2 = a[0] == "c" and b[0] == "c" and all(isinstance(z[1], (int, float)) and not isinstance(z[1], bool) for z in (a, b))
        if num2:
            try:
                return C({"+": lambda: a[1] + b[1], "-": lambda: a[1] - b[1], "*": lambda: a[1] * b[1], "/": lambda: a[1] / b[1]}[op]())
            except (KeyError, ZeroDivisionError):
                pass
        if op in "+-" and b[0] == "c" and b[1] == 0:
            return a
        if op == "+" and a[0] == "c" and a[1] == 0:
            return b
        if op in "*/" and b[0] == "c" and b[1] == 1:
            return a
        if op == "*" and a[0] == "c" and a[1] == 1:
            return b
        return T("b", op, a, b)

    def binary(self, e, st, fr):
        op = e[1]
        if op in ("&&", "||"):
            return [(C(b), x) for b, x in self.cond(e, st, fr)]
        if op == ",":
            return [r for _, x in self.ev(e[2], st, fr) for r in self.ev(e[3], x, fr)]
        out = []
        for a, x in self.ev(e[2], st, fr):
            for b, y in self.ev(e[3], x, fr):
                out.append((self.cmp(op, a, b) if op in NEG else self.bin(op, a, b), y))
        return out

    # -- calls ------------------------------------------------------------------------------------------
    def resolve(self, e, fr, recv):
        if e[0] == "call":
            c = e[1]
            if not isinstance(c, dict):
                return None
            if c.get("cls"):
                fs = [f for f in self.facts.of_class(c["cls"], c["n"]) if len(f["params"]) == len(e[2])]
                return fs[0] if fs else None
            fs = [f for f in self.facts.free(c["n"]) if len(f["params"]) == len(e[2])]
            here = [f for f in fs if f.get("file") == fr.f.get("file")]
            return (here or fs or [None])[0]
        c = e[2]
        if isinstance(c, dict) and recv is fr.this and fr.cls:
            cls = c.get("cls") if c.get("qual") else fr.cls
            fs = [f for f in self.facts.method(cls, c["n"]) if len(f["params"]) == len(e[3])]
            return fs[0] if fs else None
        return None

    def call(self, e, st, fr):
        if e[0] == "icall":
            return self.args(e[2], st, fr, lambda vs, x: [(self.record(x, "?", None, vs, e[3], fr), x)])
        if e[0] == "mcall":
            out = []
            for r, x in self.obj(e[1], st, fr):
                out += self.apply(e, r, e[2], e[3], e[5] if len(e) > 5 else 0, x, fr)
            return self.cap(out)
        return self.apply(e, None, e[1], e[2], e[3] if len(e) > 3 else 0, st, fr)

    def record(self, st, name, recv, vs, line, fr):
        if name and name.startswith("sample"):
            st.rnd += 1
            v = T("rand", name, st.rnd, tuple(vs))
        else:
            v = T("cc", name, recv if recv is not None else C(None), tuple(vs))
        st.events.append(("c", name, recv, tuple(vs), line, fr.f.get("file", ""), st.loops, v))
        return v

    def apply(self, e, recv, c, args, line, st, fr):
        name = c.get("n") if isinstance(c, dict) else "?"
        short = {"fabsf": "abs", "fabs": "abs", "std::abs": "abs", "fmaxf": "max", "fminf": "min"}.get(name, name)
        f = self.resolve(e, fr, recv) if isinstance(c, dict) else None
        if f is not None and f.get("body") and fr.depth < self.depth and name not in self.opaque and not name.startswith("sample") \
                and (self.inline is None or self.inline(f)):
            return self.inline_call(f, recv, c, args, line, st, fr)

        def done(vs, x):
            if short in ("max", "min") and len(vs) == 2:
                return [(T("mm", short, vs[0], vs[1]), x)]
            if short in ("abs", "powf", "pow", "exp", "expf", "log", "logf", "sqrt", "sqrtf", "floorf", "roundf", "ceilf", "isnan", "size", "move", "forward"):
                if short in ("move", "forward") and len(vs) == 1:
                    return [(vs[0], x)]
                return [(T("cc", short, recv if recv is not None else C(None), tuple(vs)), x)]
            return [(self.record(x, name, recv, vs, line, fr), x)]

        # references are passed as cells so that the event names what is handed over
        acc = [([], st)]
        refs = c.get("ref", []) if isinstance(c, dict) else []
        for i, a in enumerate(args):
            nxt = []
            for vs, x in acc:
                if i < len(refs) and refs[i] == "&":
                    for lv, y in self.lval(a, x, fr):
                        nxt.append((vs + [lv if lv is not None else T("unknown")], y))
                else:
                    for v, y in self.ev(a, x, fr):
                        nxt.append((vs + [v], y))
            acc = nxt
        out = []
        for vs, x in acc:
            out += done(vs, x)
        return self.cap(out)

    def inline_call(self, f, recv, c, args, line, st, fr):
        fr2 = Frame(f, recv if recv is not None else fr.this, None, fr.depth + 1)
        fr2.cls = fr.cls if recv is fr.this else f.get("cls")
        acc = [st]
        for (pname, pty), a in zip(f["params"], args):
            nxt = []
            for x in acc:
                if pty.rstrip().endswith("&"):
                    p = peel(a)
                    if p and p[0] in ("var", "mem", "idx", "opcall") or (p and p[0] == "un" and p[1] == "*"):
                        for lv, y in self.lval(p, x, fr):
                            y.env[(fr2.id, pname)] = T("ref", lv)
                            nxt.append(y)
                        continue
                for v, y in self.ev(a, x, fr):
                    y.env[(fr2.id, pname)] = v
                    nxt.append(y)
            acc = nxt
        out = []
        for x in acc:
            for y in self.stmt(f["body"], x, fr2):
                v = y.val if y.status == "ret" and y.val is not None else C(None)
                if y.status == "ret":
                    y.status, y.val = None, None
                out.append((v, y))
        return self.cap(out)


class Frame:
    count = 0

    def __init__(self, f, this, cls, depth):
        Frame.count += 1
        self.f, self.this, self.cls, self.depth, self.n = f, this, cls, depth, 0
        self.id = Frame.count
        self.outer = None
