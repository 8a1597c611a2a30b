"""The value-flow analysis of sa.interp for the C++ simulator, as translated by sa.cxx2py.

Differences: memory is cells (base, index) that calls may change (a changed place gets a new version), methods that are not const
change the members their bodies (and those of overriding methods) write, variables that a loop advances by a fixed amount are functions
of the loop index, and every allocation and every random draw is a value of its own.
"""
import ast
import os
import random
import time
from .interp import (Interp, Limit, mk_bin, mk_not, second, targets, reads, assigns, counting, iterbase, spine, _load, OPS)  # noqa: F401
from .terms import T, C, G, Term, NONE
from .equiv import PyCanon, Outcome, Suite, Spec, within, root, constkey   # noqa: F401
from .program import AnalysisBroken
from .cxx2py import params_of
from . import randint

CXXSPECS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "specs_cxx")

STDMUT = {"resize", "append", "push_back", "clear", "assign", "insert", "erase", "reserve", "emplace", "pop_back", "fill", "shrink_to_fit", "emplace_back",
          "swap"}
STDPURE = {"begin", "end", "cbegin", "cend", "find", "substr", "length", "count", "precision", "infinity", "time_since_epoch", "now", "max", "min", "lowest",
           "data", "get", "size", "str", "capacity", "first", "second"}
# arguments that external functions write
EXT = {"std_fill": (0,), "std_fill_n": (0,), "memcpy": (0,), "memset": (0,), "memmove": (0,), "std_copy": (2,), "std_copy_n": (2,), "std_iota": (0,), "std_sort": (0,),
       "std_transform": (2, 3), "std_swap": (0, 1), "cblas_sgemm": (12,), "cblas_scopy": (3,), "cblas_sscal": (2,), "cblas_sgemv": (10,), "cblas_sger": (7,)}
PUREG = {"range", "len", "max", "min", "abs", "copy", "to_int", "ptr_add", "rintf", "truncf", "load", "std_to_string", "std_isinf", "cblas_isamax",
         "cblas_idamax", "cblas_snrm2", "cblas_dnrm2", "__builtin_popcountll", "fesetround", "std_bind", "enumerate", "zip", "RuntimeError", "std_max_element",
         "std_min_element", "std_accumulate", "std_inner_product", "std_isnan", "std_isfinite", "std_distance", "cblas_sdot", "cblas_sasum"}
NOPLACE = {"RNG", "RealWorldRNG", "Context", "default_random_engine"}


class Effects:
    """What functions write and read: parameters by type, members by the bodies of the method and of all that override it."""
    def __init__(self, prog):
        self.prog = prog
        self.writes, self.byname = {}, {}
        for f in prog.all_funcs:
            w = set()
            for i, p in enumerate(params_of(f.fact["ty"])):
                p = p.strip()
                const = p.startswith("const ")
                base = p.replace("const ", "").rstrip("&* ").split("<")[0].split("::")[-1]
                if base in NOPLACE or "RNG" in p:
                    continue
                if p.endswith("*") and (not const or p.endswith("**")) or p.endswith("&") and not p.endswith("&&") and not const and (
                        "vector" in p or "map" in p):
                    w.add(i)
            self.writes.setdefault(f.name, set()).update(w)
            self.byname.setdefault(f.name, []).append(f)
        self.subs = {}
        for c in prog.all_classes:
            for b in c.mro():
                self.subs.setdefault(b.qual, []).append(c)
        self.mod, self.ref, self.edges = {}, {}, {}
        for f in prog.all_funcs:
            self._direct(f)
        changed = True
        while changed:
            changed = False
            for q, es in self.edges.items():
                for e in es:
                    a, b = len(self.mod[q]), len(self.ref[q])
                    self.mod[q] |= self.mod[e]
                    self.ref[q] |= self.ref[e]
                    changed = changed or len(self.mod[q]) != a or len(self.ref[q]) != b

    def resolve(self, cls, name):
        """Every method a call of `name` on an object of the class may reach."""
        out = []
        f = cls.lookup(name)
        if f is not None:
            out.append(f)
        for s in self.subs.get(cls.qual, ()):
            if name in s.methods:
                out.append(s.methods[name])
        return out

    def _direct(self, f):
        q = f.qual
        mod, ref, edges = self.mod.setdefault(q, set()), self.ref.setdefault(q, set()), self.edges.setdefault(q, set())
        if f.cls is None or f.is_static:
            return

        def member(e):
            """The member of this object that a place belongs to."""
            while True:
                if isinstance(e, ast.Attribute):
                    if isinstance(e.value, ast.Name) and e.value.id == "self":
                        return e.attr
                    e = e.value
                elif isinstance(e, ast.Subscript):
                    e = e.value
                elif isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "ptr_add" and e.args:
                    e = e.args[0]
                elif isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("begin", "data"):
                    e = e.func.value
                else:
                    return None
        for x in ast.walk(f.node):
            ts = x.targets if isinstance(x, ast.Assign) else [x.target] if isinstance(x, ast.AugAssign) else []
            for t in ts:
                for y in (t.elts if isinstance(t, ast.Tuple) else [t]):
                    m = member(y)
                    if m:
                        mod.add(m)
            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self" and isinstance(x.ctx, ast.Load):
                ref.add(x.attr)
            if isinstance(x, ast.Call):
                n, args = None, x.args
                if isinstance(x.func, ast.Attribute):
                    n = x.func.attr
                    b = x.func.value
                    if isinstance(b, ast.Name) and b.id == "self":
                        edges.update(g.qual for g in self.resolve(f.cls, n))
                    elif isinstance(b, ast.Name) and args and isinstance(args[0], ast.Name) and args[0].id == "self" and self.prog.find_cls_short(b.id):
                        g = self.prog.find_cls_short(b.id).lookup(n)
                        if g is not None:
                            edges.add(g.qual)
                        args = args[1:]
                    else:
                        m = member(b)
                        if m and (n in STDMUT or self.prog.constness.get(n) is False):
                            mod.add(m)
                elif isinstance(x.func, ast.Name):
                    n = x.func.id
                for i in EXT.get(n, self.writes.get(n, ())):
                    if i < len(args):
                        m = member(args[i])
                        if m:
                            mod.add(m)

    def scalar(self, name):
        """Do the functions of this name return numbers (no pointers or references)?"""
        tys = [g.fact["ty"].split("(")[0] for g in self.byname.get(name, ())]
        return bool(tys) and not any("*" in t or "&" in t or t.strip() == "void" for t in tys)

    def members(self, fn, prog):
        """(written, read) members of the receiver of a call; None when nothing is known."""
        if fn[0] == "bm":
            f = prog.find_func(fn[2])
            if f is not None and f.cls is not None and f.qual in self.mod:
                fs = [f] + [s.methods[f.name] for s in self.subs.get(f.cls.qual, ()) if f.name in s.methods]
                fs = [g for g in fs if g.qual in self.mod]
                return set().union(*(self.mod[g.qual] for g in fs)), set().union(*(self.ref[g.qual] for g in fs))
        n = fn[2].split(".")[-1] if fn[0] == "bm" else fn[2]
        fs = [g for g in self.byname.get(n, ()) if g.cls is not None and g.qual in self.mod]
        if not fs:
            return None
        return set().union(*(self.mod[g.qual] for g in fs)), set().union(*(self.ref[g.qual] for g in fs))


def callname(f):
    if f[0] in ("bm", "um"):
        return (f[2] if f[0] == "bm" else f[1]).split(".")[-1]
    if f[0] in ("fn", "g", "cls"):
        return f[1].split(".")[-1]
    if f[0] == "a":
        return f[2]
    return ""


def ispure(prog, f):
    """A call of this function changes nothing."""
    n = callname(f)
    if f[0] == "g":
        return n in PUREG or n.startswith(("make_", "m_", "op_"))
    if n in prog.constness:
        return prog.constness[n] or n.startswith("sample")
    if f[0] == "a":
        return n in STDPURE
    return False


def carried(loop, memo={}):
    """Local variables whose value one round of the loop hands to the next (to themselves as well)."""
    if loop in memo:
        return memo[loop][1]
    exposed, assigned = set(), set()

    def block(b, have):
        for x in b:
            have = stmt(x, have)
        return have

    def target(t, have):
        if isinstance(t, ast.Name):
            assigned.add(t.id)
            return have | {t.id}
        if isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                have = target(x, have)
            return have
        exposed.update(reads(t) - have)
        return have

    def stmt(x, have):
        if isinstance(x, ast.Assign):
            exposed.update(reads(x.value) - have)
            for t in x.targets:
                have = target(t, have)
            return have
        if isinstance(x, ast.AugAssign):
            exposed.update(reads(x.value) - have)
            if isinstance(x.target, ast.Name):
                exposed.update({x.target.id} - have)
                assigned.add(x.target.id)
            else:
                exposed.update(reads(x.target) - have)
            return have
        if isinstance(x, ast.If):
            exposed.update(reads(x.test) - have)
            return block(x.body, have) & block(x.orelse, have)
        if isinstance(x, ast.For):
            exposed.update(reads(x.iter) - have)
            block(x.body, target(x.target, have))
            return have
        if isinstance(x, ast.While):
            exposed.update(reads(x.test) - have)
            block(x.body, have)
            return have
        exposed.update(reads(x) - have)
        return have
    block(loop.body, target(loop.target, set()))
    memo[loop] = (loop, exposed & assigned)
    return exposed & assigned


def advances(loop):
    """Variables a round advances by a fixed amount: name -> (amount expression, sign, pointer)."""
    if loop in ADVANCES:
        return ADVANCES[loop]
    out = ADVANCES[loop] = {}
    changed = {n for y in loop.body for n in assigns(y)}
    own = set(assigns(loop.target))
    for n in sorted(changed - own):
        d = delta(loop.body, n, changed)
        if d is not None and d[0] is not None:
            out[n] = d
    return out


ADVANCES = {}


def goes_on(s):
    """Does this statement contain a continue of the loop it is in?"""
    if isinstance(s, (ast.For, ast.While)):
        return False
    return isinstance(s, ast.Continue) or any(goes_on(x) for x in ast.iter_child_nodes(s))


def leaves(body):
    return bool(body) and isinstance(body[-1], (ast.Raise, ast.Return))


def delta(body, n, changed):
    """(amount, sign, pointer) these statements add to a variable; (None, ..) when they leave it, None when not known."""
    def fixed(e):
        return not any(isinstance(x, (ast.Call, ast.Subscript)) for x in ast.walk(e)) and not reads(e) & changed
    total, gone = [], False
    for s in body:
        if n in assigns(s) or isinstance(s, ast.AugAssign) and n in assigns(s.target):
            d = None
            if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and isinstance(s.op, (ast.Add, ast.Sub)):
                d = (s.value, 1 if isinstance(s.op, ast.Add) else -1, False) if fixed(s.value) else None
            elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.Call) and \
                    isinstance(s.value.func, ast.Name) and s.value.func.id == "ptr_add" and isinstance(s.value.args[0], ast.Name) and \
                    s.value.args[0].id == n:
                d = (s.value.args[1], 1, True) if fixed(s.value.args[1]) else None
            elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.BinOp) and \
                    isinstance(s.value.op, ast.Add) and isinstance(s.value.left, ast.Name) and s.value.left.id == n:
                d = (s.value.right, 1, False) if fixed(s.value.right) else None
            elif isinstance(s, ast.If) and n not in assigns(s.test):
                a = (None, 1, False) if leaves(s.body) else delta(s.body, n, changed)
                b = (None, 1, False) if leaves(s.orelse) else delta(s.orelse, n, changed)
                if leaves(s.body) or leaves(s.orelse):
                    d = b if leaves(s.body) else a
                elif a is not None and b is not None and a[1:] == b[1:] and a[0] is not None and b[0] is not None and ast.dump(a[0]) == ast.dump(b[0]):
                    d = a
            elif isinstance(s, ast.For) and n not in assigns(s.target) and n not in assigns(s.iter) and not s.orelse and isinstance(s.iter, ast.Call) and \
                    isinstance(s.iter.func, ast.Name) and s.iter.func.id == "range" and len(s.iter.args) == 1 and fixed(s.iter.args[0]) and \
                    not any(isinstance(x, (ast.Break, ast.Return)) for y in s.body for x in ast.walk(y)):
                a = delta(s.body, n, changed)
                if a is not None and a[0] is not None:
                    k = s.iter.args[0]
                    d = (k if isinstance(a[0], ast.Constant) and a[0].value == 1 else ast.BinOp(k, ast.Mult(), a[0]),) + a[1:]
                    ast.fix_missing_locations(ast.copy_location(d[0], s))
            if d is None or gone:
                return None
            if d[0] is not None:
                total.append(d)
        if goes_on(s):
            if n in assigns(s):
                return None
            gone = True
        if gone is False and isinstance(s, ast.Break):
            gone = True
    if not total:
        return (None, 1, False)
    e, sign, ptr = total[0]
    for x in total[1:]:
        if x[1:] != (sign, ptr):
            return None
        e = ast.fix_missing_locations(ast.copy_location(ast.BinOp(e, ast.Add(), x[0]), e))
    return e, sign, ptr


CELLS = {}      # canonical index of a cell -> a term of it
COUNTED = {}


def counted(loop, st):
    """`while (k < n) { .. k++ .. }` as a loop over the number of its rounds (k is a variable that the rounds advance)."""
    t = loop.test
    if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and loop.body) or loop.orelse:
        return None
    a, b, op = t.left, t.comparators[0], t.ops[0]
    if isinstance(op, ast.Gt):
        a, b, op = b, a, ast.Lt()
    if isinstance(op, ast.NotEq) and not isinstance(a, ast.Name):
        a, b = b, a
    if not isinstance(op, (ast.Lt, ast.NotEq)) or not isinstance(a, ast.Name) or not isinstance(st.env.get(a.id), Term):
        return None
    if loop not in COUNTED:
        COUNTED[loop] = None
        f = ast.For(target=ast.Name("_", ast.Store()), iter=ast.Call(ast.Name("range", ast.Load()), [b], []), body=loop.body, orelse=[])
        adv = advances(f)
        changed = {n for y in loop.body for n in assigns(y)}
        places = {ast.dump(x.value) for y in loop.body for z in ast.walk(y) if isinstance(z, ast.Call) and isinstance(z.func, ast.Attribute) and
                  z.func.attr in STDMUT for x in [z.func]}
        stored = {x.attr for y in loop.body for x in ast.walk(y) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store)}
        calls = [x for x in ast.walk(b) if isinstance(x, ast.Call)]
        if a.id in adv and isinstance(adv[a.id][0], ast.Constant) and adv[a.id][0].value == 1 and adv[a.id][1] == 1 and not adv[a.id][2] and \
                not reads(b) & changed and all(isinstance(x.func, ast.Name) and x.func.id == "len" and ast.dump(x.args[0]) not in places for x in calls) and \
                not {x.attr for x in ast.walk(b) if isinstance(x, ast.Attribute)} & stored and not any(isinstance(x, ast.Subscript) for x in ast.walk(b)):
            g = ast.For(target=ast.Name("_", ast.Store()), iter=ast.Call(ast.Name("range", ast.Load()), [ast.BinOp(b, ast.Sub(), a)], []),
                        body=loop.body, orelse=[])
            COUNTED[loop] = [ast.fix_missing_locations(ast.copy_location(x, loop)) for x in (f, g)]
    fs = COUNTED[loop]
    return None if fs is None else fs[0 if st.env[a.id] == C(0) else 1]


class CxxInterp(Interp):
    again = False       # two rounds of every loop

    def s_While(self, n, st, fr):
        f = counted(n, st)
        if f is not None:
            return self.s_For(f, st, fr)
        return Interp.s_While(self, n, st, fr)

    def __init__(self, prog, **kw):
        Interp.__init__(self, prog, **kw)
        self.rounds = 2
        self.canon = CxxCanon(prog)

    # ---- memory
    def ver(self, st, b):
        """The current version of a place."""
        if b[0] == "call" and b[1] == G("ptr_add") and len(b[2]) == 2:
            v = self.ver(st, b[2][0])
            return b if v is b[2][0] else T("call", b[1], (v, b[2][1]), ())
        if b[0] == "call" and b[1][0] == "a" and b[1][2] in ("begin", "end") and not b[2]:
            v = self.ver(st, b[1][1])
            return b if v is b[1][1] else T("call", T("a", v, b[1][2]), (), ())
        v = st.heap.get((b, "@v"))
        if v is not None:
            return v
        if b[0] == "i":
            v = self.ver(st, b[1])
            return b if v is b[1] else T("i", v, b[2])
        return b

    @staticmethod
    def place(b):
        """The place that a pointer value points into."""
        while True:
            if b[0] == "call" and b[1] == G("ptr_add"):
                b = b[2][0]
            elif b[0] == "call" and b[1][0] == "a" and b[1][2] in ("begin", "end", "data") and not b[2]:
                b = b[1][1]
            elif b[0] == "i" and b[2] == C(0):
                b = b[1]
            elif b[0] == "at":
                b = b[1]
            else:
                return b

    def changed(self, st, b, by):
        b = self.place(b)
        if b[0] in ("c", "cls"):
            return
        k = st.heap.get((b, "@n", by), 0)
        st.heap[(b, "@n", by)] = k + 1
        old = st.heap.get((b, "@v"), b)
        for key in [x for x in st.heap if x[1] == "@i" and (x[0] is old or (x[0][0] == "i" and x[0][1] is old))]:
            del st.heap[key]
        st.heap[(b, "@v")] = T("at", b, by, k)

    def cell(self, st, b, k):
        while b[0] == "call" and b[1] == G("ptr_add") and len(b[2]) == 2:
            k = b[2][1] if k == C(0) else mk_bin("+", b[2][1], k)
            b = b[2][0]
        return self.ver(st, b), k

    def index(self, b, k, st):
        if b[0] in ("t", "l") and k[0] == "c" and isinstance(k[1], int) and -len(b[1]) <= k[1] < len(b[1]):
            return b[1][k[1]]
        b, k = self.cell(st, b, k)
        ck = self.canon.val(k)
        v = st.heap.get((b, "@i", ck))
        if v is None and (b, "@last") in st.heap and k[0] == "b" and k[1] == "-" and k[3] == C(1) and k[2] == T("call", G("len"), (b,), ()):
            return st.heap[(b, "@last")]
        return T("i", b, k) if v is None else v

    def assign(self, target, v, st, fr, node, aug=False):
        if isinstance(target, ast.Subscript):
            out = []
            for b, s in self.eval(target.value, st, fr):
                for k, s2 in self.eval(target.slice, s, fr):
                    b2, k = self.cell(s2, b, k)
                    self.ev(s2, "setitem", node, fr, target=b2, attr=k, value=v)
                    ck = self.canon.val(k)
                    CELLS.setdefault(ck, k)
                    s2.heap[(b2, "@i", ck)] = v
                    out.append(s2)
            return out
        return Interp.assign(self, target, v, st, fr, node, aug)

    def s_AugAssign(self, n, st, fr):
        out = []
        op = OPS[type(n.op)]
        for old, s in self.eval(_load(n.target), st, fr):
            for v, s2 in self.eval(n.value, s, fr):
                if s2.status != "normal":
                    out.append(s2)
                    continue
                out += self.assign(n.target, mk_bin(op, old, v), s2, fr, n, aug=True)
        return out

    def writeback(self, lv, v, st, fr):
        return

    def places(self, func, self_t, node, st):
        return {}

    def getattr(self, b, attr, st, fr, node):
        if b[0] == "a" or b[0] == "p" or b[0] == "i" or b[0] == "draw" or b[0] == "call":
            return [(st.heap.get((b, attr), T("a", b, attr)), st)]
        return Interp.getattr(self, b, attr, st, fr, node)

    # ---- calls
    def apply(self, f, args, kws, st, fr, node):
        k = f[0]
        if k in ("fn", "bm", "um", "clos"):
            return Interp.apply(self, f, args, kws, st, fr, node)
        if k == "g":
            n = f[1]
            if n == "RuntimeError":
                return [(T("call", f, (), ()), st)]
            if n == "len" and len(args) == 1:
                return [(C(len(args[0][1])) if args[0][0] in ("l", "t") else T("call", f, (self.ver(st, args[0]),), ()), st)]
            if n in ("max", "min") and len(args) == 2 and all(a[0] == "c" for a in args):
                return [(C({"max": max, "min": min}[n](args[0][1], args[1][1])), st)]
            if n == "abs" and len(args) == 1:
                return [(T("call", T("tm", "abs"), tuple(args), ()), st)]
            if n == "to_int" and len(args) == 1:
                a = args[0]
                if a[0] == "c":
                    return [(C(int(a[1])), st)]
                return [(a if a[0] == "call" and a[1] == f else T("call", f, (a,), ()), st)]
            if n == "ptr_add" and len(args) == 2:
                b, off = args
                if b[0] == "call" and b[1] == f:
                    b, off = b[2][0], mk_bin("+", b[2][1], off)
                return [(b if off == C(0) else T("call", f, (b, off), ()), st)]
            if n.startswith("m_"):
                if n == "m_pow" and len(args) == 2 and args[1][0] == "c":
                    return [(mk_bin("**", args[0], args[1]), st)]
                return [(T("call", T("tm", n[2:]), tuple(args), ()), st)]
        return [(self.opaque(f, args, st, fr, node), st)]

    def construct(self, f, args, kws, st, fr, node):
        return [(self.opaque(f, args, st, fr, node), st)]

    def opaque(self, f, args, st, fr, node):
        """A call that is compared as such."""
        n = callname(f)
        prog = self.prog
        recv = f[1] if f[0] in ("a", "bm") else None
        std = recv is not None and f[0] == "a" and n in STDMUT and n not in prog.constness
        vargs = tuple(self.ver(st, a) for a in args)
        f2 = f
        if recv is not None and f[0] == "a":
            v = self.ver(st, recv)
            if v is not recv:
                f2 = T("a", v, n)
        t = T("call", f2, vargs, ())
        pure = ispure(prog, f)
        mods = ((), ())
        if recv is not None and not std:
            mods = self.fx.members(f, prog) or ((), ())
        # what the callee finds: members of the receiver and cells of the arguments that were set on this path
        for key, v in list(st.heap.items()):
            if key[1] == "@i":
                b = self.place(key[0])
                if any(self.place(a) is b or key[0] is a for a in vargs if a[0] != "c"):
                    self.ev(st, "sees", node, fr, fn=t, target=key[0], attr=T("cell", key[2]), value=v)
            elif len(key) == 2 and key[1][0] != "@":
                if key[0] is recv and (key[1] in mods[0] or key[1] in mods[1]) or any(a is key[0] for a in vargs):
                    self.ev(st, "sees", node, fr, fn=t, target=key[0], attr=key[1], value=v)
        self.ev(st, "call", node, fr, fn=f2, args=vargs, kws=())
        alloc = f[0] == "g" and (n.startswith("make_") or n == "copy") or f[0] == "cls"
        if alloc or n.startswith("sample") or not pure:
            t = self.draw(t, st, node, fr)
        elif mods[1] and self.fx.scalar(n):      # the value depends on the members that were set before
            seen = tuple(("@" + m, st.heap[(recv, m)]) for m in sorted(mods[1]) if (recv, m) in st.heap)
            t = T("call", f2, vargs, seen) if seen else t
        if not pure:
            if std:
                self.changed(st, recv, n)
                if n in ("append", "push_back", "emplace_back") and len(args) == 1:
                    st.heap[(self.ver(st, recv), "@last")] = args[0]
            for i in EXT.get(n, ()) if f[0] == "g" else self.fx.writes.get(n, ()):
                if i < len(args):
                    self.changed(st, args[i], n)
            if recv is not None and mods[0]:
                k = st.heap.get((recv, "@n", n), 0)
                st.heap[(recv, "@n", n)] = k + 1
                for m in mods[0]:
                    st.heap[(recv, m)] = st.heap[(recv, "@b", m)] = T("at", T("a", recv, m), n, k)
        return t

    def call_func(self, func, recv, self_t, args, kws, st, fr, node, fterm=None, closure=None):
        if fterm is None:
            fterm = T("bm", self_t, func.qual, recv.qual) if self_t is not None and recv is not None else T("fn", func.qual)
        if len(fr.stack) > self.depth or fr.stack.count(func.qual) > 1 or self.stop(func, recv, args, kws):
            return [(self.opaque(fterm, args, st, fr, node), st)]
        return Interp.call_func(self, func, recv, self_t, args, kws, st, fr, node, fterm, closure)

    # ---- loops
    def loop_items(self, it):
        if it[0] == "call" and it[1] == G("range") and len(it[2]) == 1 and it[2][0][0] == "c" and isinstance(it[2][0][1], int) and it[2][0][1] <= 4:
            return [C(i) for i in range(it[2][0][1])]
        if it[0] in ("t", "l") and len(it[1]) <= self.unroll:
            return list(it[1])
        return None

    def elem(self, it, i=None):
        lv = it
        if it[0] == "lv":
            it = it[1]
        if it[0] == "call" and it[1] == G("range"):
            a = it[2]
            i = i or T("idx", lv if lv is not it else iterbase(it))
            if len(a) == 1:
                return i
            step = a[2] if len(a) > 2 else C(1)
            x = i if step == C(1) else mk_bin("*", step, i)
            return x if a[0] == C(0) else mk_bin("+", a[0], x)
        return T("elem", lv)

    def s_For(self, n, st, fr):
        out = []
        for it, s in self.eval(n.iter, st, fr):
            if s.status != "normal":
                out.append(s)
                continue
            it = plainrange(it)
            items = self.loop_items(it)
            if items is not None:
                states, broke = [s], []
                for x in items:
                    nxt = []
                    for s2 in states:
                        for s3 in self.assign(n.target, x, s2, fr, n):
                            for s4 in self.block(n.body, [s3], fr):
                                if s4.status == "break":
                                    s4.status = "normal"
                                    broke.append(s4)
                                elif s4.status in ("normal", "continue"):
                                    s4.status = "normal"
                                    nxt.append(s4)
                                else:
                                    broke.append(s4)
                    states = nxt
                out += states + broke
                continue
            base = iterbase(it)
            if it[0] == "call" and it[1] == G("range") and len(it[2]) > 1 and (len(it[2]) == 2 or it[2][2] in (C(1), C(-1))):
                base = iterbase(T("call", G("range"), (rounds(it, base),), ()))       # the same rounds, counted from 0
            depth = sum(1 for x in s.loops if x is base or x[0] == "lv" and x[1] is base)
            lv = T("lv", base, depth) if depth else base
            it2 = T("lv", it, depth) if depth else it
            if depth and it is base:
                it2 = lv
            outer = s.loops
            s.loops = outer + (lv,)
            isrange = it[0] == "call" and it[1] == G("range")
            idx = T("idx", lv if depth and isrange else it2 if depth else base)
            x1 = self.elem(it if isrange else it2, idx if isrange else None)
            adv = {}
            for k, (e, sign, ptr) in advances(n).items():
                if isinstance(s.env.get(k), Term):
                    adv[k] = (s.env[k], self.eval(e, s, fr)[0][0], sign, ptr)
            again = self.again or bool(carried(n) - set(adv))
            last = rounds(it, base)
            self.ev(s, "rounds" if again else "least", n, fr, value=last)

            def advance(s2, i):
                for k, (v0, inc, sign, ptr) in adv.items():
                    d = i if inc == C(1) else mk_bin("*", i, inc)
                    if ptr:
                        s2.env[k] = T("call", G("ptr_add"), (v0, d), ())
                    else:
                        s2.env[k] = mk_bin("+" if sign > 0 else "-", v0, d) if v0 != C(0) or sign < 0 else d
            self.ev(s, "loop", n, fr, value=lv)
            advance(s, idx)
            body = []
            for s2 in self.assign(n.target, x1, s, fr, n):
                body += self.block(n.body, [s2], fr)
            if again:
                first, body = body, []
                for s3 in first:
                    if s3.status not in ("continue", "normal"):
                        body.append(s3)
                        continue
                    s3.status = "normal"
                    advance(s3, second(idx, 2))
                    for s4 in self.assign(n.target, second(x1, 2), s3, fr, n):
                        body += self.block(n.body, [s4], fr)
            for s3 in body:
                if s3.status in ("continue", "normal"):
                    s3.status = "normal"
                    advance(s3, last)
                elif s3.status == "break":
                    s3.status = "normal"
                s3.loops = outer
                self.ev(s3, "endloop", n, fr, value=lv)
            out += body
        return out


def plainrange(it):
    """range(0, (n - 1) + 1) is range(n)."""
    if it[0] == "call" and it[1] == G("range"):
        a = tuple(linear(x) for x in it[2])
        if len(a) == 3 and a[2] == C(1):
            a = a[:2]
        if len(a) == 2 and a[0] == C(0):
            a = a[1:]
        if a != it[2]:
            return T("call", it[1], a, ())
    return it


def linear(t):
    """A sum of integers without terms that cancel."""
    parts, n = {}, [0, 0]

    def add(x, k):
        if x[0] == "b" and x[1] in ("+", "-"):
            add(x[2], k)
            add(x[3], k if x[1] == "+" else -k)
        elif x[0] == "c" and isinstance(x[1], int):
            n[0] += k * x[1]
        else:
            parts[x] = parts.get(x, 0) + k
        n[1] += 1
    add(t, 1)
    left = [(x, k) for x, k in parts.items() if k]
    if any(abs(k) != 1 for _, k in left) or len(left) + (n[0] != 0) >= (n[1] + 1) // 2:
        return t
    left.sort(key=lambda p: -p[1])
    out = None
    for x, k in left:
        out = (x if k > 0 else mk_bin("-", C(0), x)) if out is None else mk_bin("+" if k > 0 else "-", out, x)
    if out is None:
        return C(n[0])
    return out if not n[0] else mk_bin("+" if n[0] > 0 else "-", out, C(abs(n[0])))


def rounds(it, base):
    """How many rounds a loop makes."""
    if it[0] == "call" and it[1] == G("range"):
        a = it[2]
        if len(a) == 1:
            return a[0]
        if len(a) == 2 or a[2] in (C(1), C(-1)):
            x, y = (a[1], a[0]) if len(a) == 2 or a[2] == C(1) else (a[0], a[1])
            return x if y == C(0) else linear(mk_bin("-", x, y))
    return T("call", G("len"), (base,), ())


class CxxCanon(PyCanon):
    def _key(self, t):
        if t[0] == "i":
            b, i = t[1], t[2]
            if i[0] == "idx" and i[1] is b:
                return ("elem", self.sub(b)) + i[2:]
            return ("i", self.sub(b), self.sub(i))
        if t[0] == "a":
            return ("a", self.sub(t[1]), t[2])
        if t[0] == "cell":
            return t
        return PyCanon._key(self, t)


class CxxOutcome(Outcome):
    _none, _attrs = (), ()         # an absent object is a matter of the pointers in C++

    def __init__(self, ck, st, opts):
        self.facts = ck.facts(st.conds)
        self.items, self.raw, self.where, self._sig = {}, {}, {}, None
        self.st = st
        self.what, self.rounds, self.least, self.isbool = [], [], [], opts.get("bool")
        for e in st.events:
            if e.kind == "rounds" and e.value not in self.rounds:
                self.rounds.append(e.value)
            elif e.kind == "least" and e.value not in self.least:
                self.least.append(e.value)
        if st.status == "raise":
            self.put("raises", "exception", st.val, None)
            return
        self.what.append(("ret", st.val))
        prog, fx = opts["prog"], opts["fx"]
        self.put("returns", ck.val(st.val), st.val, None)
        last, n = {}, {}
        local = []
        done = []
        for e in st.events:
            if e.kind == "store":
                if e.attr not in opts["ignore"]:
                    k = ("store", ck.val(e.target), e.attr)
                    last.pop(k, None)
                    last[k] = (e.value, e)
            elif e.kind == "setitem":
                r = root(e.target)
                while r[0] == "at" or r[0] == "a" or r[0] == "i":
                    r = r[1]
                k = ("item", ck.val(e.target), ck.val(e.attr))
                last.pop(k, None)
                last[k] = (e.value, e)
                if r[0] == "draw":
                    local.append((k, r))
            elif e.kind == "sees":
                t = e.fn
                if not ispure(prog, t[1]) or t[1][0] in ("fn", "bm", "g"):
                    last[("sees", callname(t[1]), ck.callkey(t), ck.val(e.target), ck.val(e.attr) if isinstance(e.attr, Term) else e.attr)] = (e.value, e)
            elif e.kind == "call" and not ispure(prog, e.fn) and e.callee() not in opts["ignore"]:
                t = T("call", e.fn, tuple(e.args), ())
                ck_ = ck.callkey(t)
                k = ("call", e.callee(), ck_, tuple(ck.val(x) for x in e.loops))
                n[k] = n.get(k, 0) + 1
                self.put(k if n[k] == 1 else k + (n[k],), True, t, e)
                self.what.append(("call", e.callee(), t, tuple(e.loops)))
                if e.fn[0] in ("a", "bm") and isinstance(e.fn[1], Term):
                    m = fx.members(e.fn, prog)
                    for fn0, k0, m0, t0 in done:
                        if m is None or m0 is None or not (within(fn0[1], e.fn[1]) or within(e.fn[1], fn0[1])):
                            continue
                        if fn0[1] is e.fn[1] and not (m0[0] & (m[0] | m[1]) or m[0] & m0[1]):
                            continue
                        self.put(("order", callname(fn0), k0, callname(e.fn), ck_), True, e.fn, e)
                        self.what.append(("order", t0, t))
                    done.append((e.fn, ck_, m, t))
        used = set()
        for k in list(self.raw):
            _roots(self.raw[k], used)
        for k, (v, e) in last.items():
            if not (k[0] == "item" and any(k is q for q, _ in local)):
                _roots(v, used)
                if k[0] == "sees":
                    _roots(e.fn, used)
        for k, (v, e) in last.items():
            r = [x for q, x in local if q is k]
            if r and r[0] not in used:
                continue
            self.put(k, ck.val(v), v, e)
            if k[0] == "sees":
                a = e.attr
                if isinstance(a, Term):
                    a = CELLS[a[1]]
                self.what.append(("sees", e.fn, e.target, a, v))
            elif k[0] == "store":
                self.what.append(("store", e.target, e.attr, v, st.heap.get((e.target, "@b", e.attr)) or T("a", e.target, e.attr)))
            else:
                self.what.append(("item", e.target, e.attr, v))

    def numbers(self, s):
        """The effects of this path under a sample."""
        if self.st.status == "raise":
            return {"raises": 1}
        out, seen = {}, {}
        for w in self.what:
            if w[0] == "ret":
                out["returns"] = s.rec(w[1]) if not self.isbool else s.rec(w[1]) != 0
            elif w[0] == "store":
                k, v = ("store", s.ev(w[1]), w[2]), s.rec(w[3])
                out.pop(k, None)
                if v != truth(w[3], s.ev(w[4])):
                    out[k] = v
            elif w[0] == "item":
                b, off = s.pointer(w[1])
                k, v = ("item", b, off + s.ev(w[2])), s.rec(w[3])
                out.pop(k, None)
                if v != truth(w[3], s.ev(T("i", w[1], w[2]))):
                    out[k] = v
            elif w[0] == "sees":
                fn = s.rec(w[1])
                if isinstance(w[3], Term):
                    b, off = s.pointer(w[2])
                    k, old = ("sees", fn, b, off + s.ev(w[3])), s.ev(T("i", w[2], w[3]))
                else:
                    k, old = ("sees", fn, s.ev(w[2]), w[3]), s.ev(T("a", w[2], w[3]))
                v = s.rec(w[4])
                out.pop(k, None)
                if v != old:
                    out[k] = v
            elif w[0] == "call":
                k = ("call", w[1], s.ev(w[2]), tuple(s.count(x) if x[0] != "while" else 0 for x in w[3]))
                seen[k] = seen.get(k, 0) + 1
                out[k] = seen[k]
            else:
                out[("order", s.ev(w[1]), s.ev(w[2]))] = 1
        return out

    @staticmethod
    def effect(e, opts):
        return not ispure(opts["prog"], e.fn)


def truth(new, old):
    """The old value of a place, as a truth value where one is stored."""
    isbool = isinstance(new, Term) and (new[0] in ("not", "cmp", "bool") or new[0] == "c" and isinstance(new[1], bool))
    return int(old != 0) if isbool else old


def _roots(t, out, seen=None):
    """Allocations a term mentions."""
    seen = set() if seen is None else seen
    todo = [t]
    while todo:
        x = todo.pop()
        if isinstance(x, Term):
            if id(x) in seen:
                continue
            seen.add(id(x))
            if x[0] == "draw":
                out.add(x)
        if isinstance(x, tuple):
            todo += [y for y in x if isinstance(y, tuple)]


class CxxSuite(Suite):
    canon_cls, outcome_cls = CxxCanon, CxxOutcome
    specdir = CXXSPECS

    def __init__(self, ctx, prog, *names):
        self.fx = Effects(prog)
        Suite.__init__(self, ctx, *names, prog=prog)

    again = erase = False
    total = spent = 0.0
    budget = 40.0           # seconds for the samples of one function
    budgets = 240.0         # and of all

    def _one(self, rule, s, f, code, recv, names, ref, attempt=0, scenarios=True):
        ctx = self.ctx
        self.total = getattr(self, "total", 0.0) + getattr(self, "spent", 0.0)
        self.spent = 0.0
        s.opts["bool"] = (code.fact or {}).get("ty", "").startswith("bool ") if hasattr(code, "fact") else False
        n = len(ctx.findings)
        before = (ctx.obligations, ctx.discharged, list(ctx.findings), list(ctx.samples), list(ctx.notes), dict(ctx.counts))

        def back(v):
            ctx.obligations, ctx.discharged, ctx.findings, ctx.samples, ctx.notes, ctx.counts = v[:2] + tuple(type(x)(x) for x in v[2:])
        got = Suite._one(self, rule, s, f, code, recv, names, ref, attempt, scenarios)
        if len(ctx.findings) == n or got is None or self.again or self.erase:
            return got
        # the same written with another kind of loop
        (wg, rg, bg), (wr, rr, br) = self.loopkinds(got), self.loopkinds(ref[0])
        wg, wr = (w or any(isinstance(x, ast.While) for x in ast.walk(g.node)) for w, g in ((wg, code), (wr, f)))
        if wg != wr:
            back(before)
            ctx.skip(rule, s.qual, "loops with other conditions than in the reference")
            return got
        worse = (ctx.obligations, ctx.discharged, list(ctx.findings), list(ctx.samples), list(ctx.notes), dict(ctx.counts))
        if rg != rr and ref[2] is None:
            back(before)
            self.again = True
            try:
                it = self.interp(s.opts)
                got2 = Suite._one(self, rule, s, f, code, recv, names, (it.run(f, recv=recv), it, None), 0, False)
            except (Limit, AnalysisBroken):
                got2 = None
            finally:
                self.again = False
            if len(ctx.findings) == n:
                if got2 is None:
                    ctx.skip(rule, s.qual, "sums built in another way")
                return got
            back(worse)
        if bg - br and br - bg and len(bg - br) != len(br - bg):
            back(before)
            ctx.skip(rule, s.qual, "loops nested in another way than in the reference")
            return got
        if any(x[0] for x in bg ^ br) and not all(x[0] for x in bg ^ br):
            back(before)
            self.erase = True
            try:
                Suite._one(self, rule, s, f, code, recv, names, ref, attempt, False)
            finally:
                self.erase = False
            if len(ctx.findings) == n:
                ctx.skip(rule, s.qual, "a loop over a container where the reference counts, or the other way round")
                return got
            back(worse)
        return got

    def loopkinds(self, states):
        """(conditions of while loops?, sums over the rounds, what is iterated) on these paths."""
        ck = self.canon_cls(self.prog)
        w, r, b = False, set(), set()
        for st in states:
            for e in st.events:
                if e.kind == "loop":
                    v = e.value
                    if v[0] == "while":
                        w = True
                        continue
                    if v[0] == "lv":
                        v = v[1]
                    b.add((not (v[0] == "call" and v[1] == G("range")), ck.val(v)))
                elif e.kind == "rounds":
                    r.add(ck.val(e.value))
        return w, r, b

    def inlinable(self, qual):
        f = self.prog.find_func(qual)
        return f is None or f.cls is None or not any(f.name in c.methods for c in self.fx.subs.get(f.cls.qual, ()) if c is not f.cls)

    def same(self, p, q):
        """Do two paths do the same: True, False, or None (undecided; inputs that take both may not exist)."""
        if self.spent > self.budget or self.total > self.budgets:
            return None
        t0 = time.time()
        try:
            return self._same(p, q)
        except (randint.Giveup, RecursionError, ArithmeticError, ValueError):
            return None
        finally:
            self.spent += time.time() - t0

    @staticmethod
    def agree(p, q, s):
        """Same effects under this sample? None when both divide by zero or numbers were replaced."""
        s.div0 = False
        a, za = p.numbers(s), s.div0
        s.div0 = False
        b, zb = q.numbers(s), s.div0
        return None if za and zb or s.inexact and a != b else a == b

    def _same(self, p, q):
        conds = randint.conditions(p.st, q.st) + [(T("cmp", "<", C(0), x), True) for x in p.least + [y for y in q.least if y not in p.least]]
        if self.erase:
            conds = randint.conditions(p.st, q.st)
        n2 = [] if self.erase else [(T("cmp", "==", x, C(2)), True) for x in p.rounds + [y for y in q.rounds if y not in p.rounds]]
        rets = []
        if p.isbool and not self.erase:       # both truth values that each side may return
            rets = [(o.st.val, v) for o in (p, q) if isinstance(o.st.val, Term) and o.st.status != "raise" for v in (True, False)]
        for ret in rets:
            for seed in range(4):
                s = randint.Sample(seed, self.prog)
                if s.satisfy(conds + n2 + [ret]) and self.agree(p, q, s) is False:
                    return False
        ch = [] if self.erase else randint.choices([w for o in (p, q) for w in o.what])
        for seed in range(100, 110 if ch else 100):       # what min and max choose, at random
            s = randint.Sample(seed, self.prog)
            rnd = random.Random(seed)
            soft = [(c, rnd.random() < .5) for c in ch]
            if s.satisfy(conds + n2, 60, soft) and self.agree(p, q, s) is False:
                return False
        for extra in ((n2, []) if n2 else ([],)):
            n = 0
            for seed in range(14):
                s = randint.Sample(seed, self.prog, self.erase)
                if not s.satisfy(conds + extra):
                    if seed > 7 and not n:
                        break
                    continue
                same = self.agree(p, q, s)
                if same is None:
                    continue
                n += 1
                if not same:
                    return False
                if n >= 4:
                    return True
            if n:
                return True
            if extra and set(p.rounds) != set(q.rounds):
                return None
        return None

    def interp(self, opts):
        stopset = self.specd - opts["inline"]
        opts["prog"], opts["fx"] = self.prog, self.fx

        def stop(func, recv, args, kws):
            if func.name in opts["inline"]:
                return False
            return func.qual in stopset or func.name in opts["opaque"]
        it = CxxInterp(self.prog, stop=stop, depth=opts["depth"], loop_once=True, max_states=16000 if self.ctx.thorough else 6000,
                       max_steps=600000 if self.ctx.thorough else 150000, merging=False)
        it.while_times = 2
        it.again = self.again
        it.fx = self.fx
        return it
