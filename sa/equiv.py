"""Agreement of a function with a reference definition, by value numbering.

The reference is Python text in /verif/specs that is parsed and never run.  Both the function of the repository and its reference are
walked by the path-sensitive value-flow analysis (sa.interp); for every pair of paths whose branch facts are compatible, the canonical
forms of what they return, store, change in place and call must agree.  Calls of other functions that have a reference of their own are
kept opaque in both (each is compared separately); every other helper is inlined, so extracting or renaming one does not matter.
A difference is reported only when all operations in it are known to the analysis; otherwise the construct is noted as undecided.
"""
import ast
import os
from .interp import Interp, Limit, _is_generator
from .program import Func, AnalysisBroken
from .terms import Term, T, C, A, walk, show
from .poly import Canon

SPECDIR = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "specs")

PURE_NAMES = {"items", "keys", "values", "size", "dim", "numel", "to", "cpu", "cuda", "float", "double", "type", "type_as", "format", "join",
              "startswith", "endswith", "copy", "split", "strip", "rstrip", "lower", "upper", "isinstance", "len", "get", "item", "tolist", "numpy",
              "contiguous", "append_", "index", "count", "named_parameters", "parameters", "modules", "named_modules", "expand_as", "view_as",
              "repeat", "element_size", "data_ptr", "is_contiguous", "long", "int", "bool", "half", "all", "any", "compatible_with",
              "extra_repr", "analog_tiles", "analog_layers", "named_analog_layers", "children", "named_children", "__len__", "state_dict"}
MOVES = {"to", "cpu", "cuda", "float", "double", "half", "type", "pop", "copy"}        # in place for modules, pure for tensors
PURE_PREFIX = ("get_", "is_", "has_", "can_", "new_", "_get_", "supports_", "uses_", "allow")
# tensor operations whose meaning the comparison may rely on when it says "different"
INTERPRETED = {"abs", "exp", "log", "sqrt", "round", "floor", "ceil", "sign", "clamp", "mean", "max", "min", "sum", "amax", "amin", "std", "var", "any",
               "all", "pow", "transpose", "size", "dim", "zeros_like", "ones_like", "rand_like", "randn_like", "where", "sigmoid", "tanh", "relu", "cat",
               "stack", "split", "clone", "norm", "median", "quantile", "isnan", "numel", "maximum", "minimum", "square", "flatten", "unsqueeze",
               "squeeze", "logical_and", "logical_or", "cumsum", "detach", "einsum"}
BUILTINS = {"max", "min", "len", "abs", "range", "zip", "enumerate", "list", "tuple", "int", "float", "bool", "sum", "getattr", "isinstance", "sorted",
            "round", "any", "all", "dict", "set", "str", "type", "hasattr", "setattr", "id", "map"}
STOP = {"parameters_to_bindings", "as_bindings", "get_bindings_class", "get_field_names"}     # never entered: compared as calls
VAGUE = {"while", "fresh", "alts", "partial", "star", "ls", "ts", "part", "reraise"}

SIG = {"sum": ("x", "dim", "keepdim"), "mean": ("x", "dim", "keepdim"), "std": ("x", "dim", "keepdim"), "max": ("x", "dim", "keepdim"),
       "min": ("x", "dim", "keepdim"), "amax": ("x", "dim", "keepdim"), "amin": ("x", "dim", "keepdim"), "clamp": ("x", "min", "max"),
       "size": ("x", "dim"), "transpose": ("x", "dim0", "dim1"), "cat": ("x", "dim"), "stack": ("x", "dim"), "split": ("x", "n", "dim"),
       "unsqueeze": ("x", "dim"), "squeeze": ("x", "dim"), "flatten": ("x", "start_dim", "end_dim"), "cumsum": ("x", "dim"), "where": ("c", "a", "b"),
       "quantile": ("x", "q", "dim"), "chunk": ("x", "n", "dim"), "norm": ("x", "p", "dim")}
SIG_DEFAULT = {"keepdim": False, ("cat", "dim"): 0, ("stack", "dim"): 0, ("split", "dim"): 0, ("flatten", "start_dim"): 0, ("flatten", "end_dim"): -1}
ERASED = {"detach", "contiguous", "clone"}


# what the methods of a tile (layer, context, quantizer) read and write, as far as the order of calls matters
READS = {
    "weights": {"get_weights", "get_weights_cuda", "read_weights", "forward", "forward_indexed", "joint_forward", "joint_forward_indexed", "backward", "backward_indexed",
                "_sync_analog_ctx_weights", "_copy_weights_to_shared_tensors", "get_hidden_parameters", "dump_extra", "modify_weights", "_get_tile_weights_ref",
                "_forward_drift_readout_tensor"},
    "rate": {"get_learning_rate", "update", "update_indexed"},
    "mode": {"forward", "joint_forward", "__call__"},
    "indexed": {"is_indexed", "forward", "forward_indexed", "joint_forward", "joint_forward_indexed", "_sync_analog_ctx_weights"},
    "scales": {"get_scales", "get_mapping_scales", "get_learned_out_scales", "apply_out_scaling", "get_weights", "read_weights", "pre_backward", "pre_update"},
    "ranges": {"scale_quantizer", "bias_quantizer", "module_out_quantizer", "out_quantizer", "quantizer", "is_learning", "activation_quantizer", "weight_quantizer"},
    "pairs": {"has_gradient", "update", "update_indexed"},
    "step": {"step", "post_update_step"},
    "context": {"_raw_data", "_logical_shape", "_logical_data"},
}
WRITES = {
    "weights": {"set_weights", "set_weights_cuda", "set_weights_uniform_random", "update", "update_indexed", "program_weights", "drift_weights", "clip_weights",
                "remap_weights", "decay_weights", "diffuse_weights", "reset_columns", "post_update_step", "set_hidden_parameters", "set_shared_weights",
                "set_delta_weights", "reset_delta_weights", "_recreate_simulator_tile", "_bind_shared_weights", "reset_parameters", "load_state_dict"},
    "rate": {"set_learning_rate"},
    "mode": {"train", "eval"},
    "indexed": {"set_indexed", "_recalculate_indexes", "_recreate_simulator_tile"},
    "scales": {"set_scales", "set_mapping_scales", "init_mapping_scales", "init_learned_out_scales", "set_learned_out_scales", "remap_weights", "set_weights"},
    "ranges": {"estimate_ranges", "estimate_ranges_train", "fix_ranges", "learn_ranges", "set_quant_range", "reset_ranges"},
    "pairs": {"reset"},
    "step": {"step", "post_update_step"},
    "context": {"_replace_raw_data", "reset"},
}
TOUCHES = {}
for _k in READS:
    for _n in READS[_k] | WRITES[_k]:
        TOUCHES.setdefault(_n, []).append((_k, _n in WRITES[_k]))


def conflict(a, b):
    """The order of two calls matters: they touch the same part of the state and one of them writes it."""
    return any(k == k2 and (w or w2) for k, w in TOUCHES.get(a, ()) for k2, w2 in TOUCHES.get(b, ()))


class PyCanon(Canon):
    """Canonical keys of Python value terms."""
    def __init__(self, prog):
        Canon.__init__(self, None)
        self.prog = prog
        self.kmemo = {}
        self.closures = {}          # closure term -> (interp, closure)

    def _poly(self, t):
        if t[0] == "b" and t[1] == "**" and t[3][0] == "c" and isinstance(t[3][1], int) and not isinstance(t[3][1], bool) and 0 < t[3][1] <= 4:
            p = q = self.poly(t[2])
            for _ in range(t[3][1] - 1):
                q = self.mul(q, p, t)
            return q
        if t[0] == "call" and t[1][0] == "tm" and len(t[2]) >= 1:
            n = t[1][1]
            if n in ERASED and len(t[2]) == 1:
                return self.poly(t[2][0])
            if n == "square" and len(t[2]) == 1:
                p = self.poly(t[2][0])
                return self.mul(p, p, t)
            if n == "reciprocal" and len(t[2]) == 1:
                return self.inv(self.poly(t[2][0]))
        if t[0] == "call" and t[1][0] == "a" and t[1][2] in ERASED and not t[2]:
            return self.poly(t[1][1])
        if t[0] == "a" and t[2] == "data":
            return self.poly(t[1])
        return Canon._poly(self, t)

    def key(self, t):
        r = self.kmemo.get(t)
        if r is None:
            r = self.kmemo[t] = self._key(t)
        return r

    def val(self, t):
        """Key of a term in value position (polynomial where it is arithmetic)."""
        return self.sub(t)

    def sub(self, x):
        if isinstance(x, Term):
            if x[0] in ("b", "u") or x[0] == "c" and isinstance(x[1], (int, float)) and not isinstance(x[1], bool):
                return self.canon(x)
            if x[0] == "call" or x[0] == "a":
                p = self.poly(x)
                if len(p) == 1:
                    (m, c), = p.items()
                    if c == 1.0 and len(m) == 1 and m[0][1] == 1:
                        return m[0][0]
                return self.freeze(p)
            return self.key(x)
        if isinstance(x, tuple):
            return tuple(self.sub(y) for y in x)
        return x

    def _key(self, t):
        k = t[0]
        if k == "c":
            return ("c", type(t[1]).__name__, t[1])
        if k == "str":
            return ("str",)
        if k == "clos":
            return ("clos", self.closure(t))
        if k == "fresh":
            return ("fresh", t[1])
        if k == "while":
            return ("while",)
        if k == "new":
            return ("new", t[1])
        if k == "a":
            if t[2] == "T":
                return ("call", "transpose", (("dim0", 0.0), ("dim1", 1.0), ("x", self.sub(t[1]))))
            if t[2] == "ndim":
                return ("call", "dim", (self.sub(t[1]),))
            return ("a", self.sub(t[1]), t[2])
        if k == "i":
            b, i = t[1], t[2]
            if i[0] == "idx" and b[0] != "d":
                return ("elem", self.sub(b)) + i[2:]
            if i[0] == "c" and isinstance(i[1], int):
                base = None
                if b[0] == "a" and b[2] == "shape":
                    base = b[1]
                if b[0] == "call" and b[1] == T("tm", "size") and len(b[2]) == 1:
                    base = b[2][0]
                if base is not None:
                    return ("call", "size", (("dim", self.sub(i)), ("x", self.sub(base))))
            return ("i", self.sub(b), self.sub(i))
        if k == "cmp":
            return self.cond(t)
        if k == "bool":
            return ("bool", t[1], tuple(sorted((self.sub(x) for x in t[2]), key=repr)))
        if k == "set" and isinstance(t[1], tuple):
            return ("set", tuple(sorted((self.sub(x) for x in t[1]), key=repr)))
        if k == "d" and isinstance(t[1], tuple) and all(x[0][0] != "dstar" for x in t[1]):
            return ("d", tuple(sorted(((self.sub(a), self.sub(b)) for a, b in t[1]), key=repr)))
        if k == "comp":
            return ("comp", t[1], self.sub(t[2]), self.sub(t[3]), self.filters(t[4]))
        if k == "bm":
            return ("bm", self.sub(t[1]), t[2])
        if k == "um":
            return ("um", t[1])
        if k == "call":
            return self.callkey(t)
        if k == "draw":
            return ("draw", t[1], self.sub(t[2]))
        if k == "t" and len(t) == 2 and len(t[1]) > 1:
            x = t[1][0]                 # (f(...)[0], f(...)[1]) is f(...)
            if isinstance(x, Term) and x[0] == "i" and x[1][0] == "call" and x[1][1][0] in ("bm", "fn", "um") and \
                    all(isinstance(y, Term) and y[0] == "i" and y[1] is x[1] and y[2] == C(j) for j, y in enumerate(t[1])):
                return self.sub(x[1])
        return (k,) + tuple(self.sub(x) for x in t[1:])

    def closure(self, t):
        """What a local function does: the facts and the value of each of its paths."""
        if t not in self.closures:
            return ()
        it, (f, env, fr) = self.closures.pop(t)
        names = f.all_params()
        try:
            paths = it.run(f, env={k: v for k, v in dict(env, **{n: T("p", "%%%d" % i) for i, n in enumerate(names)}).items()})
        except (Limit, AnalysisBroken):
            return ("unknown",)
        mine = {x.id for x in ast.walk(f.node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | set(names)
        mine -= {y for x in ast.walk(f.node) if isinstance(x, ast.Nonlocal) for y in x.names}
        out = set()
        for st in paths:
            facts = self.facts(st.conds)
            if facts is None:
                continue
            what = [("ret", self.val(st.val))] if st.status == "return" else [("raise",)]
            last = {}
            for e in st.events:
                if e.kind == "store":
                    last["store", self.val(e.target), e.attr] = self.val(e.value)
                elif e.kind == "setitem" and (root(e.target)[0] in ("self", "p", "g") or e.target[0] == "call"):
                    last["item", self.val(e.target), self.val(e.attr)] = self.val(e.value)
                elif e.kind == "mut" and e.value is not None and root(e.target)[0] in ("self", "p"):
                    last["changes", self.val(strip(e.target)), ""] = self.val(e.value)
                elif e.kind == "call" and Outcome.effect(e, {"watch": (), "ignore": ()}):
                    what.append(("call", self.callkey(T("call", e.fn, tuple(e.args), tuple(e.kws)))))
            for k, v in env.items():           # lists and dictionaries of the enclosing function
                w = st.env.get(k)
                if k not in mine and isinstance(v, Term) and v[0] in ("l", "d") and isinstance(w, Term) and w is not v:
                    last["captured", self.val(v), ""] = self.val(w)
            what += sorted(last.items(), key=repr)
            out.add((frozenset(facts.items()), tuple(what)))
        return tuple(sorted(out, key=repr))

    def callkey(self, t):
        f, args, kws = t[1], t[2], t[3]
        if f[0] == "tm":
            n = f[1]
            if n in ("view",):
                n = "reshape"
            sig = SIG.get(n)
            if sig and not any(k == "**" for k, _ in kws) and len(args) <= len(sig):
                d = dict(zip(sig, args))
                for k, v in kws:
                    d["dim" if k == "axis" else k] = v
                if n == "size" and set(d) == {"x"}:
                    return ("a", self.sub(args[0]), "shape")
                out = []
                for k, v in d.items():
                    dv = SIG_DEFAULT.get((n, k), SIG_DEFAULT.get(k))
                    if v[0] == "c" and (v[1] is None or (dv is not None and v[1] == dv)):
                        continue
                    out.append((k, self.sub(v)))
                return ("call", n, tuple(sorted(out, key=repr)))
            return ("call", n, tuple(self.sub(a) for a in args) + tuple((k, self.sub(v)) for k, v in kws))
        if f[0] == "g" and f[1] in ("max", "min") and len(args) == 2:
            return ("mm", f[1], tuple(sorted((self.sub(a) for a in args), key=repr)))
        if f[0] == "g" and f[1] == "len" and len(args) == 1 and args[0][0] == "a" and args[0][2] == "shape":
            return ("call", "dim", (self.sub(args[0][1]),))
        if f[0] in ("bm", "fn", "um"):
            func = self.prog.find_func(f[2] if f[0] == "bm" else f[1])
            if func is not None:
                b = self.bindargs(func, args, kws, f[0] == "bm" or (f[0] == "um" and False))
                if b is not None:
                    return ("call", self.key(f), b)
        return ("call", self.sub(f), tuple(self.sub(a) for a in args), tuple(sorted(((k, self.sub(v)) for k, v in kws), key=repr)))

    def bindargs(self, func, args, kws, bound):
        if any(a[0] == "star" for a in args) or any(k == "**" for k, _ in kws):
            return None
        a = func.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        if bound and func.cls is not None and not func.is_static:
            pos = pos[1:]
        if a.vararg or a.kwarg or len(args) > len(pos):
            return None
        d = {n: self.sub(v) for n, v in zip(pos, args)}
        for k, v in kws:
            d[k] = self.sub(v)
        for n in pos + [x.arg for x in a.kwonlyargs]:
            if n not in d:
                dv = func.default(n)
                if isinstance(dv, ast.Constant):
                    d[n] = self.sub(C(dv.value)) if not isinstance(dv.value, complex) and dv.value is not Ellipsis else repr(dv.value)
                elif dv is not None:
                    d[n] = ("default", ast.dump(dv))
        return tuple(sorted(d.items()))

    # ---- branch facts
    def cond(self, t):
        """Canonical atom of a (non-negated) condition, as (atom, polarity) flattened into a key."""
        a, pol = self.condp(t)
        return a if pol else ("not", a)

    def condp(self, t):
        pol = True
        while t[0] == "not":
            t, pol = t[1], not pol
        if t[0] == "cmp":
            op, a, b = t[1], t[2], t[3]
            if op == "is" and b[0] == "c" and b[1] is None:
                return ("isnone", self.sub(a)), pol
            if op == "<":
                return ("lt0", self.sign(self.poly(T("b", "-", a, b)))), pol
            if op in ("==", "is"):
                if self.numeric(a) or self.numeric(b):
                    p = self.sign(self.poly(T("b", "-", a, b)))
                    q = self.sign(self.poly(T("b", "-", b, a)))
                    return ("eq0", min(p, q, key=repr)), pol
                return ("eq", tuple(sorted((self.sub(a), self.sub(b)), key=repr))), pol
            return ("cmp", op, self.sub(a), self.sub(b)), pol
        if t[0] == "raises":
            return ("raises", t[2][1]), pol
        if t[0] == "isinstance":
            return ("isinstance", self.sub(t[1]), self.sub(t[2])), pol
        return ("truth", self.sub(t)), pol

    def sign(self, p):
        """The polynomial with the same sign and zeros: no factor, and x for 1/x."""
        if len(p) == 1:
            (m, c), = p.items()
            if m:
                m = tuple(sorted(((x, abs(n)) for x, n in m), key=repr))
                return self.freeze({m: 1.0 if c > 0 else -1.0})
        return self.freeze(p)

    def filters(self, conds):
        out, todo = set(), list(conds)
        while todo:
            c = todo.pop()
            if c[0] == "partial":
                out.add(("partial",))
            elif c == C(True):
                pass
            elif c[0] == "bool" and c[1] == "and":
                todo += c[2]
            elif c[0] == "not" and c[1][0] == "not":
                todo.append(c[1][1])
            elif c[0] == "not" and c[1][0] == "bool" and c[1][1] == "or":
                todo += [T("not", x) for x in c[1][2]]
            else:
                out.add(self.condp(c))
        return tuple(sorted(out, key=repr))

    def numeric(self, t):
        return t[0] in ("b", "u") or (t[0] == "c" and isinstance(t[1], (int, float)) and not isinstance(t[1], bool))

    def facts(self, conds):
        out = {}
        for c, v in conds.items():
            if c[0] == "nonempty":
                continue
            a, pol = self.condp(c)
            v = (v is True) == pol
            if out.get(a, v) is not v or (a[0] in ("lt0", "eq0") and constpoly(a[1]) is not None and v is not
                                          (constpoly(a[1]) < 0 if a[0] == "lt0" else constpoly(a[1]) == 0)):
                return None         # contradictory: no such path
            out[a] = v
        for a, v in list(out.items()):
            if a[0] == "truth" and v:
                out.setdefault(("isnone", a[1]), False)
            if a[0] == "isnone" and v:
                out.setdefault(("truth", a[1]), False)
            if a[0] == "isinstance" and v:
                out.setdefault(("isnone", a[1]), False)
            if a[0] == "lt0" and v:
                # x < 0 excludes x == 0 and -x < 0
                neg = tuple(sorted(((m, -c) for m, c in a[1]), key=repr))
                out.setdefault(("lt0", neg), False)
                out.setdefault(("eq0", min(a[1], neg, key=repr)), False)
            if a[0] == "eq0" and v:
                neg = tuple(sorted(((m, -c) for m, c in a[1]), key=repr))
                out.setdefault(("lt0", a[1]), False)
                out.setdefault(("lt0", neg), False)
        return out


def constpoly(p):
    if not p:
        return 0.0
    return p[0][1] if len(p) == 1 and p[0][0] == () else None


def constkey(k):
    return isinstance(k, tuple) and k and (k[0] == "c" or (k[0] == "a" and isinstance(k[1], tuple) and k[1] and k[1][0] == "cls"))


def root(t):
    while True:
        if t[0] == "a" or t[0] == "i" or t[0] == "upd" or t[0] == "elem":
            t = t[1]
        elif t[0] == "call" and t[1][0] == "a" and t[1][2] in ERASED | {"view", "flatten"}:
            t = t[1][1]
        elif t[0] == "call" and t[1][0] == "tm" and t[1][1] in ("detach", "view", "transpose", "squeeze", "unsqueeze", "split", "chunk") and t[2]:
            t = t[2][0]
        else:
            return t


class Outcome:
    """What one path does, as labelled canonical items; `raw` keeps the terms for messages and for the comparability test."""
    def __init__(self, ck, st, opts):
        self.facts = ck.facts(st.conds)
        self.items, self.raw, self.where, self._sig, self._none, self._attrs = {}, {}, {}, None, None, None
        self.st = st
        if st.status == "raise":
            v = st.val
            n = "exception"
            if v is not None and v[0] == "call":
                v = v[1]
            if v is not None and v[0] in ("cls", "g"):
                n = v[1].split(".")[-1]
            self.put("raises", n, v, None)
            return          # what happened before a raise is not compared
        if "return" not in opts["ignore"]:
            self.put("returns", ck.val(st.val), st.val, None)
        last = {}
        n = {}
        for e in st.events:
            if e.kind == "store":
                if e.attr in opts["ignore"]:
                    continue
                last[("store", ck.val(e.target), e.attr)] = (e.value, e)
            elif e.kind == "mut" and e.value is not None:
                r = root(e.target)
                tgt = strip(e.target)
                if tgt[0] == "a" and r[0] in ("self",):
                    last[("store", ck.val(tgt[1]), tgt[2])] = (e.value, e)
                elif r[0] == "p":
                    last[("changes", ck.val(tgt), "")] = (e.value, e)
            elif e.kind == "setitem":
                r = root(e.target)
                if r[0] in ("self", "p", "g") or e.target[0] == "call":
                    last[("item", ck.val(e.target), ck.val(e.attr))] = (e.value, e)
            elif e.kind == "del" and root(e.target)[0] in ("self", "p"):
                last[("deletes", ck.val(e.target), e.attr)] = (C(None), e)
            elif e.kind == "call" and self.effect(e, opts):
                t = T("call", e.fn, tuple(e.args), tuple(e.kws))
                k = ("call", e.callee(), ck.callkey(t), tuple(ck.val(x) for x in e.loops))
                n[k] = n.get(k, 0) + 1
                kk = k if n[k] == 1 else k + (n[k],)
                self.put(kk, True, t, e)
            elif e.kind in ("yield", "yieldfrom"):
                k = (e.kind, ck.val(e.value), tuple(ck.val(x) for x in e.loops))
                n[k] = n.get(k, 0) + 1
                self.put(k if n[k] == 1 else k + (n[k],), True, e.value, e)
        done = []
        for e in st.events:
            if e.kind == "call" and e.fn[0] in ("a", "bm") and e.callee() in TOUCHES and isinstance(e.fn[1], Term):
                name, recv = e.callee(), e.fn[1]
                for m, r, k in done:
                    if conflict(m, name) and (within(r, recv) or within(recv, r)):
                        self.put(("order", m, k, name, ck.val(recv)), True, e.fn, e)
                done.append((name, recv, ck.val(recv)))
        for k, (v, e) in last.items():
            # the final value in the heap, where there is one
            if k[0] == "store":
                for (b, a), hv in st.heap.items():
                    if a == k[2] and ck.val(b) == k[1]:
                        v = hv
            self.put(k, ck.val(v), v, e)

    def excludes(self, q):
        """On this path the other would raise: it takes an attribute of something that is None here, or that is known to be absent."""
        if self._none is None:
            self._none = {a[1] for a, v in self.facts.items() if v and a[0] == "isnone"} | {
                (a[1][2][0], a[1][2][1][2]) for a, v in self.facts.items() if not v and a[0] == "truth" and a[1][:2] == ("call", ("g", "hasattr"))
                and len(a[1]) > 2 and len(a[1][2]) == 2 and a[1][2][1][:2] == ("c", "str")}
        if not self._none:
            return False
        if q._attrs is None:
            q._attrs = set()
            todo = [k for k in q.items] + list(q.items.values()) + list(q.facts)
            while todo:
                k = todo.pop()
                if isinstance(k, tuple):
                    if len(k) == 3 and k[0] == "a" and isinstance(k[2], str):
                        q._attrs.add(k[1])
                        q._attrs.add((k[1], k[2]))
                    todo += k
        return bool(self._none & q._attrs)

    def sig(self):
        if self._sig is None:
            self._sig = frozenset(self.items.items())
        return self._sig

    def put(self, k, canon, raw, e):
        self.items[k] = canon
        self.raw[k] = raw
        if e is not None:
            self.where[k] = e.where()

    @staticmethod
    def effect(e, opts):
        f = e.fn
        n = e.callee()
        if n in opts["watch"]:
            return True
        if f[0] == "g":
            if any(isinstance(a, Term) and a[0] == "clos" for a in e.args) or f[1].endswith(".__init__"):
                return True         # an external function given a local one: it may be called
            return n in ("setattr", "delattr") or ".Module." in "." + f[1] or f[1].startswith(("torch.manual_seed", "torch.set_"))
        if f[0] in ("tm", "cls", "clos"):
            return False
        while f[0] == "call" and f[1][0] == "a" and f[1][2] in ("eval", "train", "to", "cpu", "cuda") and n is None:
            f = f[1][1]
        if f[0] == "p" or (f[0] == "i" and root(f)[0] == "p"):
            return "return" not in opts["ignore"]
        if n in MOVES and (f[0] == "bm" or id(e.node) in opts.get("discarded", ())):
            return True
        if n is None or n in PURE_NAMES or n.startswith(PURE_PREFIX) or n in opts["ignore"]:
            return False
        if f[0] == "a" and f[1][0] in ("c", "str", "l", "d", "t"):
            return False
        return f[0] in ("bm", "fn", "um", "a")


def within(a, b):
    """b is a, or an attribute (an element) of it."""
    while True:
        if a == b or (b[0] == "super" and a == b[3]):
            return True
        if b[0] not in ("a", "i"):
            return False
        b = b[1]


def strip(t):
    while True:
        if t[0] == "a" and t[2] == "data":
            t = t[1]
        elif t[0] == "call" and t[1][0] == "a" and t[1][2] in ("detach", "view", "flatten"):
            t = t[1][1]
        elif t[0] == "call" and t[1][0] == "tm" and t[1][1] in ("detach", "view"):
            t = t[2][0]
        else:
            return t


def symbols(t, out):
    for x in walk(t):
        if x[0] == "call":
            f = x[1]
            if f[0] == "tm":
                out.add("tm:" + f[1])
            elif f[0] == "g":
                out.add("g:" + f[1])
            elif f[0] == "a":
                out.add("m:" + f[2])
            elif f[0] in ("bm", "um"):
                out.add("f:" + (f[2] if f[0] == "bm" else f[1]))
            elif f[0] in ("fn", "cls"):
                out.add("f:" + f[1])
            else:
                out.add("?:" + f[0])
        elif x[0] in VAGUE:
            out.add("v:" + x[0])
    return out


def partly(t):
    return any(x[0] == "comp" and any(c[0] == "partial" for c in x[4]) for x in walk(t))


def masks(outs):
    """Branch facts as bit sets; being equal to one constant implies being different from the others."""
    atoms = {}
    byval = {}
    lines = {}                  # atoms about the same expression up to a constant: (atom, kind, orientation, constant)
    for o in outs:
        for a in o.facts:
            if a not in atoms:
                atoms[a] = 1 << len(atoms)
                if a[0] in ("lt0", "eq0"):
                    n, s, c = line(a[1])
                    if n:
                        lines.setdefault(n, []).append((a, s, c))
                if a[0] == "eq" and len(a[1]) == 2:
                    for x, y in (a[1], a[1][::-1]):
                        if constkey(x):
                            byval.setdefault(y, []).append(a)
    for o in outs:
        o.pos = o.neg = 0
        for a, v in o.facts.items():
            if v:
                o.pos |= atoms[a]
                if a[0] == "eq" and len(a[1]) == 2:
                    for x, y in (a[1], a[1][::-1]):
                        if constkey(x):
                            for b in byval.get(y, ()):
                                if b != a:
                                    o.neg |= atoms[b]
            else:
                o.neg |= atoms[a]
            if a[0] in ("lt0", "eq0"):
                n, s, c = line(a[1])
                for b, s2, c2 in lines.get(n, ()) if len(lines.get(n, ())) > 1 else ():
                    if b != a:
                        r = implied(a[0], v, s, c, b[0], s2, c2)
                        if r is True:
                            o.pos |= atoms[b]
                        elif r is False:
                            o.neg |= atoms[b]


def line(p):
    """p as (n, s, c) with p = s*(n + c), where n has no constant and a leading coefficient of one sign."""
    c = sum(k for m, k in p if m == ())
    n = tuple((m, k) for m, k in p if m != ())
    if not n:
        return n, 1, c
    s = 1 if n[0][1] > 0 else -1
    f = abs(n[0][1])
    return tuple((m, round(s * k / f, 9)) for m, k in n), s, s * c / f


def implied(kind, v, s, c, kind2, s2, c2):
    """What `s*(n + c) < 0` (or == 0) being v says about `s2*(n + c2) < 0` (or == 0)."""
    if kind == "eq0":
        if not v:
            return None
        x = c2 - c              # n + c2
        return x == 0 if kind2 == "eq0" else s2 * x < 0
    if s == 1:                  # v: n < -c, not v: n >= -c
        lo, hi, lo_in, hi_in = (None, -c, False, False) if v else (-c, None, True, False)
    else:                       # v: n > -c, not v: n <= -c
        lo, hi, lo_in, hi_in = (-c, None, False, False) if v else (None, -c, False, True)
    x = -c2
    if kind2 == "eq0":
        out = (hi is not None and (x > hi or x == hi and not hi_in)) or (lo is not None and (x < lo or x == lo and not lo_in))
        return False if out else None
    if s2 == 1:                 # n < x?
        if hi is not None and (hi < x or hi == x and not hi_in):
            return True
        if lo is not None and lo >= x:
            return False
    else:                       # n > x?
        if lo is not None and (lo > x or lo == x and not lo_in):
            return True
        if hi is not None and hi <= x:
            return False
    return None


def constval(e):
    """A constant default as a comparable value; None when it is not one."""
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
        v = constval(e.operand)
        return None if v is None or not isinstance(v[1], (int, float)) else ("n", -v[1])
    if isinstance(e, ast.Constant):
        if isinstance(e.value, bool) or not isinstance(e.value, (int, float)):
            return (type(e.value).__name__, e.value)
        return ("n", e.value)
    return None


def unimplemented(func):
    """A hook that subclasses provide."""
    body = [x for x in func.node.body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
    return len(body) == 1 and isinstance(body[0], ast.Raise) and body[0].exc is not None and \
        ast.unparse(body[0].exc).split("(")[0] == "NotImplementedError"


class Spec:
    def __init__(self, qual, func, opts):
        self.qual, self.func, self.opts = qual, func, opts
        self.backup = ()


def default_of(e):
    """What a field of a dataclass is by default: field(default_factory=f) is f(), made anew; whether __init__ takes it, and what the
    bindings include, stays."""
    if not (isinstance(e, ast.Call) and ast.unparse(e.func).split(".")[-1] == "field" and not e.args and all(k.arg for k in e.keywords)):
        return e
    kw = {k.arg: k.value for k in e.keywords}
    v = kw.get("default")
    f = kw.get("default_factory")
    if isinstance(f, ast.Lambda) and not f.args.args:
        v = f.body
    elif f is not None:
        v = ast.Call(f, [], [])
    if v is None:
        return e
    extra = []
    if "init" in kw and not (isinstance(kw["init"], ast.Constant) and kw["init"].value is True):
        extra.append(("init", kw["init"]))
    m = kw.get("metadata")
    items = {}
    if isinstance(m, ast.Dict):
        items = {k.value: v2 for k, v2 in zip(m.keys, m.values) if isinstance(k, ast.Constant)}
    elif isinstance(m, ast.Call):
        items = {k.arg: k.value for k in m.keywords}
    if "bindings_include" in items:
        extra.append(("bindings_include", items["bindings_include"]))
    if extra:
        v = ast.Tuple([v] + [ast.Tuple([ast.Constant(a), b], ast.Load()) for a, b in extra], ast.Load())
    return ast.fix_missing_locations(ast.copy_location(v, e))


class Suite:
    """The references of one file, bound to the current program."""
    specdir = SPECDIR
    canon_cls, outcome_cls = PyCanon, Outcome

    def __init__(self, ctx, *names, prog=None):
        self.ctx, self.prog = ctx, prog or ctx.prog
        self.specs = []
        self.missing = []
        self.words = set()          # names any reference uses
        for name in sorted(x[:-3] for x in os.listdir(self.specdir) if x.endswith(".py")) if "*" in names else names:
            self._load(name)
        self.specd = {s.qual for s in self.specs}
        self.vocab = set()

    def _load(self, name):
        path = os.path.join(self.specdir, name + ".py")
        with open(path) as fh:
            tree = ast.parse(fh.read(), path)
        for n in ast.walk(tree):
            if isinstance(n, ast.Call):
                if isinstance(n.func, ast.Attribute):
                    self.words.add(n.func.attr)
                elif isinstance(n.func, ast.Name):
                    self.words.add(n.func.id)
        for n in tree.body:
            if isinstance(n, ast.ClassDef):
                target, copts = self._of(n)
                cls = self.prog.find_cls(target)
                if cls is None:
                    self.missing.append(target)
                    continue
                for x in n.body:
                    if isinstance(x, ast.FunctionDef):
                        _, opts = self._of(x, copts)
                        f = Func(x.name, x, cls.module, cls)
                        setter = any(d.endswith(".setter") for d in f.decorators)
                        table = cls.setters if setter else cls.methods
                        qual = cls.qual + "." + x.name + (".setter" if setter else "")
                        code = table.get(x.name)
                        if code is None:
                            code = cls.lookup_setter(x.name) if setter else cls.lookup(x.name)       # moved to a base class
                        if code is None:
                            table[x.name] = f          # renamed or removed in the code: calls fall back to the reference
                            self.missing.append(qual)
                            continue
                        self.specs.append(Spec(qual, (f, cls, code), opts))
                    elif isinstance(x, ast.Assign):
                        k = x.targets[0].id
                        own = cls.lookup_attr(k)
                        if own is None:
                            self.missing.append(cls.qual + "." + k)
                            continue
                        self._value(cls.qual + "." + k, k, default_of(x.value), own[1] if own[1] is None else default_of(own[1]), own[0].module)
            elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and ast.unparse(n.value.func) == "value":
                target = n.value.args[0].value
                mod, _, k = target.rpartition(".")
                m = self.prog.modules.get(mod)
                if m is None or k not in m.globals:
                    self.missing.append(target)
                    continue
                self._value(target, k, n.value.args[1], m.globals[k], m)
            elif isinstance(n, ast.FunctionDef):
                target, opts = self._of(n)
                mod, _, fn = target.rpartition(".")
                m = self.prog.modules.get(mod)
                if m is None or fn not in m.functions:
                    self.missing.append(target)
                    if m is not None:
                        m.functions[fn] = Func(fn, n, m)
                    continue
                self.specs.append(Spec(m.functions[fn].qual, (Func(n.name, n, m), None, m.functions[fn]), opts))

    def _value(self, qual, name, ref, code, module):
        """A constant of a class or module: compared as a function that returns it."""
        def func(e):
            n = ast.parse("def %s():\n    return 0" % name).body[0]
            n.body[0] = ast.Return(value=e, lineno=e.lineno, col_offset=e.col_offset)
            n.lineno = e.lineno
            return Func(name, n, module)
        if code is not None:
            self.specs.append(Spec(qual, (func(ref), None, func(code)), self._of(ast.parse("def f(): pass").body[0])[1]))

    @staticmethod
    def _of(n, base=None):
        opts = {"ignore": set((base or {}).get("ignore", ())), "watch": set((base or {}).get("watch", ())), "depth": (base or {}).get("depth", 6),
                "inline": set((base or {}).get("inline", ())), "opaque": set((base or {}).get("opaque", ())), "recv": None}
        target = None
        for d in n.decorator_list:
            if isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id == "of":
                if d.args:
                    target = d.args[0].value
                for k in d.keywords:
                    v = ast.literal_eval(k.value)
                    if k.arg in ("ignore", "watch", "inline", "opaque"):
                        opts[k.arg] |= set([v] if isinstance(v, str) else v)
                    else:
                        opts[k.arg] = v
        n.decorator_list = [d for d in n.decorator_list if not (isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id == "of")]
        return target, opts

    def interp(self, opts):
        stopset = self.specd - opts["inline"]

        def stop(func, recv, args, kws):
            q = func.qual
            if func.name in opts["inline"]:
                return False
            return q in stopset or func.name in STOP or func.name in opts["opaque"] or unimplemented(func)
        it = Interp(self.prog, stop=stop, depth=opts["depth"], loop_once=True, max_states=16000 if self.ctx.thorough else 6000,
                    max_steps=600000 if self.ctx.thorough else 150000, merging=False)
        it.while_times = 2
        it.quiet = lambda e: e.kind in ("inl", "ret", "draw") or (e.kind == "mut" and e.attr == "append" and root(e.target)[0] == "l") or \
            (e.kind == "setitem" and e.target[0] == "d") or (e.kind == "call" and not Outcome.effect(e, opts))
        return it

    # ---- functions with too many paths: those that differ from a base path in at most two decisions
    def guide(self, states, backup=(), other=None):
        """Decide as these paths of the reference did; what they did not decide is followed both ways, or as the backup did."""
        ck = self.canon_cls(self.prog)
        facts = {}
        for part in (backup, states):
            mine = {}
            for st in part:
                for c, v in st.conds.items():
                    a, pol = ck.condp(c)
                    v = (v is True) == pol
                    mine[a] = v if mine.get(a, v) is v else None
            facts.update(mine)

        def prefer(t, st):
            a, pol = ck.condp(t)
            v = facts.get(a)
            return other if v is None else v == pol
        return prefer

    def scenarios(self, s, f, recv):
        """(states, interpreter) of the reference along selected paths, without repetitions."""
        seen, out = set(), []
        sites = []

        def add(choice, base):
            order = []
            it = self.interp(s.opts)

            def prefer(t, st):
                k = tuple(it.site)
                order.append(k)
                return choice.get(k, base)
            it.prefer = prefer
            try:
                states = it.run(f, recv=recv)
            except Limit:
                return None
            for a in order:
                if a not in sites:
                    sites.append(a)
            key = frozenset(frozenset(st.conds.items()) for st in states)
            if key not in seen:
                seen.add(key)
                out.append((states, it))
            return states, order
        bases = []
        for base in (False, True):
            choice = {}
            for _ in range(40):
                r = add(choice, base)
                if r is None or not r[1] or any(st.status != "raise" for st in r[0]):
                    break
                a = next((x for x in reversed(r[1]) if x not in choice), None)
                if a is None:
                    break
                choice[a] = not base
            bases.append((dict(choice), base))
            if r is not None and any(st.status != "raise" for st in r[0]):
                s.backup = r[0]
        n = -1
        while len(sites) != n and len(out) < 400:
            n = len(sites)
            for choice, base in bases:
                for a in list(sites):
                    add({**choice, a: not choice.get(a, base)}, base)
        limit = 6000 if self.ctx.thorough else 900
        done = len(out)
        for choice, base in bases:
            for i, a in enumerate(sites):
                for b in sites[:i]:
                    done += 1
                    if done < limit:
                        add({**choice, a: not choice.get(a, base), b: not choice.get(b, base)}, base)
        return out

    def prepare(self, rule, only=None):
        """The references, interpreted."""
        runs = []
        for s in self.specs:
            f, cls, code = s.func
            if only and s.qual not in only:
                continue
            try:
                recv = self.prog.find_cls(s.opts["recv"]) if s.opts["recv"] else cls
                # parameters of the code take the names of the reference, by position
                names = self.rename(f, code)
                it = self.interp(s.opts)
                ref = it.run(f, recv=recv)
                runs.append((s, f, code, recv, names, (ref, it, None)))
            except Limit as exc:
                sc = self.scenarios(s, f, recv)
                if not sc:
                    self.ctx.skip(rule, s.qual, "reference: %s" % exc)
                self.ctx.count("functions compared along selected paths")
                for ref, it in sc:
                    runs.append((s, f, code, recv, names, (ref, it, self.guide(ref))))
        for s, f, code, recv, names, ref in runs:
            self.learn(ref[0])
        return runs

    def learn(self, states):
        """The operations references use."""
        for st in states:
            for e in st.events:
                if e.fn is not None:
                    symbols(T("call", e.fn, tuple(e.args), tuple(e.kws)), self.vocab)
                if e.value is not None:
                    symbols(e.value, self.vocab)
            if st.val is not None:
                symbols(st.val, self.vocab)
            for c in st.conds:
                symbols(c, self.vocab)

    def run(self, rule, only=None):
        ctx = self.ctx
        for s, f, code, recv, names, ref in self.prepare(rule, only):
            before = (ctx.obligations, ctx.discharged, list(ctx.findings), list(ctx.samples), list(ctx.notes), dict(ctx.counts))
            try:
                self.one(rule, s, f, code, recv, names, ref)
            except (ArithmeticError, ValueError, LookupError, TypeError, AttributeError, RecursionError) as exc:
                # a form of code the analysis does not handle: no answer for this function, the others still count
                ctx.obligations, ctx.discharged, ctx.findings, ctx.samples, ctx.notes, ctx.counts = before
                ctx.skip(rule, s.qual, "the analysis failed on this form (%s: %s)" % (type(exc).__name__, exc))
        for m in self.missing:
            self.ctx.skip(rule, m, "no such function in the code (calls of it are analysed with the reference)")

    def rename(self, f, code):
        fp, cp = f.all_params(), code.all_params()
        if len(fp) <= len(cp):
            return {c: T("p", r) for c, r in zip(cp, fp)}
        return None

    def called(self, states):
        """(function with a reference, how often) for each path; values included."""
        out = set()
        for st in states:
            n, syms = {}, set()
            for e in st.events:
                if e.fn is not None:
                    if e.kind == "call":
                        q = e.fn[2] if e.fn[0] == "bm" else e.fn[1]
                        n[q] = n.get(q, 0) + 1
                    symbols(T("call", e.fn, tuple(e.args), tuple(e.kws)), syms)
                if e.value is not None:
                    symbols(e.value, syms)
            if st.val is not None:
                symbols(st.val, syms)
            for c in st.conds:
                symbols(c, syms)
            out |= {(q, k) for q, k in n.items() if q in self.specd} | {(x[2:], 0) for x in syms if x[:2] == "f:" and x[2:] in self.specd}
        return out

    def one(self, rule, s, f, code, recv, names, ref):
        """Compare; where one side calls a function and the other may have its body instead, compare again with that function inlined."""
        ctx = self.ctx
        state = lambda: (ctx.obligations, ctx.discharged, list(ctx.findings), list(ctx.samples), list(ctx.notes), dict(ctx.counts))      # noqa: E731

        def back(v):
            ctx.obligations, ctx.discharged, ctx.findings, ctx.samples, ctx.notes, ctx.counts = v
        before = state()
        got = self._one(rule, s, f, code, recv, names, ref)
        tried = set()
        for _ in range(2):
            if len(ctx.findings) == len(before[2]) or got is None or ref[2] is not None:
                return
            inline = {q for q, _ in self.called(got) ^ self.called(ref[0]) if self.inlinable(q)} - {s.qual} - tried
            if not inline:
                return
            tried |= inline
            worse, swapped = state(), self.swapped
            s2 = Spec(s.qual, s.func, dict(s.opts, inline=s.opts["inline"] | tried))
            back((before[0], before[1], list(before[2]), list(before[3]), list(before[4]), dict(before[5])))
            try:
                it = self.interp(s2.opts)
                ref2 = (it.run(f, recv=recv), it, None)
            except (Limit, AnalysisBroken):
                back(worse)
                return
            self.learn(ref2[0])
            got2 = self._one(rule, s2, f, code, recv, names, ref2, scenarios=False)
            und = "undecided " + rule
            if got2 is not None and len(ctx.findings) == len(before[2]) and ctx.discharged > before[1] and \
                    (swapped or ctx.counts.get(und, 0) <= worse[5].get(und, 0)):
                ctx.count("functions compared with callees inlined")
                return
            if got2 is None:
                back(worse)
                return
            back(worse)
            got, ref = got2, ref2

    def _one(self, rule, s, f, code, recv, names, ref, attempt=0, scenarios=True):
        name = s.qual.split("aihwkit.")[-1]
        if names is None:
            self.ctx.skip(rule, name, "fewer parameters than the reference")
            return
        if _is_generator(f.node) != _is_generator(code.node):
            self.ctx.skip(rule, name, "a generator function on one side only")
            return
        extra = code.all_params()[len(f.all_params()):]
        args = dict(names)
        for rp, cp in zip(f.all_params(), code.all_params()):
            rd, cd = f.default(rp), code.default(cp)
            if rd is None:
                continue
            rv, cv = constval(rd), constval(cd)
            if rv is not None:
                if cd is not None and cv is None:
                    self.ctx.skip(rule, name, "default of %s" % cp)
                else:
                    self.ctx.check(rv == cv, rule, name, code.where(), "the default of %s is %s where the reference has %s" % (
                        cp, "missing" if cd is None else ast.unparse(cd), ast.unparse(rd)))
        for x in extra:          # additional parameters: at their default
            d = code.default(x)
            if isinstance(d, ast.Constant):
                args[x] = C(d.value)
        try:
            it = self.interp(s.opts)
            it.uid = 1000000
            it.prefer = ref[2]
            got = it.run(code, recv=recv, args=args)
        except (Limit, AnalysisBroken) as exc:
            if isinstance(exc, Limit) and ref[2] is not None and it.prefer is ref[2] and not attempt:
                return self._one(rule, s, f, code, recv, names, (ref[0], ref[1], self.guide(ref[0], s.backup, False)), 1)
            if isinstance(exc, Limit) and ref[2] is None and scenarios:
                sc = self.scenarios(s, f, recv)
                for r, rit in sc:
                    self._one(rule, s, f, code, recv, names, (r, rit, self.guide(r)))
                if sc:
                    return None
            self.ctx.skip(rule, name, exc)
            return None
        ck = self.canon_cls(self.prog)
        ref, rit, _ = ref
        for i in (it, rit):
            ck.closures.update({t: (i, c) for t, c in i.closures.items()})
        discarded = it.discarded | rit.discarded
        s.opts["discarded"] = discarded
        refs = [q for q in (self.outcome_cls(ck, st, s.opts) for st in ref) if q.facts is not None]
        refatoms = set()
        for q in refs:
            refatoms |= set(q.facts)
        outs = [p for p in (self.outcome_cls(ck, st, s.opts) for st in got) if p.facts is not None]
        masks(outs + refs)
        outs, refs = ([o for o in os_ if not o.pos & o.neg] for os_ in (outs, refs))       # the facts of a path can exclude each other
        a, b = ({x for o in os_ for x in o.items.items()} for os_ in (outs, refs))
        self.swapped = bool(a - b) and bool(b - a)         # each side does something that the other does not
        groups = {}
        for q in refs:
            groups.setdefault(q.sig(), []).append(q)
        good_paths = 0
        for p in outs:
            st = p.st
            wrong, right, unsure = [], False, False
            for sig, qs in groups.items():
                for q in qs:
                    if (p.pos & q.neg) | (p.neg & q.pos):
                        continue
                    if sig == p.sig():
                        right = True
                        continue
                    if p.excludes(q):
                        continue
                    same = self.same(p, q)
                    if same:
                        right = True
                    elif same is None:
                        unsure = True
                    else:
                        wrong.append((q, self.diff(p, q)))
                        break
            if not wrong:
                if right:
                    good_paths += 1
                    if good_paths <= 40:
                        self.ctx.ok(rule, name, code.where(), "path (%s): %d observable effects agree" % (st.path()[:200], len(p.items)))
                    else:
                        self.ctx.obligations += 1
                        self.ctx.discharged += 1
                        self.ctx.count("rule " + rule)
                elif unsure:
                    self.ctx.skip(rule, name, "not decided whether the reference does the same on: %s" % st.path()[:160])
                else:
                    self.ctx.skip(rule, name, "no path of the reference is compatible with: %s" % st.path()[:160])
                continue
            good = right
            q, d = min(wrong, key=lambda x: len(x[1]))
            unknown = [a for a in p.facts if a not in refatoms]
            syms = set()
            condterms = [c for c in st.conds if ck.condp(c)[0] in unknown]
            for k in d:
                if k in p.raw and isinstance(p.raw[k], Term):
                    symbols(p.raw[k], syms)
            for c in condterms:
                symbols(c, syms)
            if d == ["raises"]:          # a function the analysis does not know may be the one that raises
                for e in st.events:
                    if e.kind == "call" and e.fn is not None and e.fn[0] != "cls":
                        symbols(T("call", e.fn, (), ()), syms)
            odd = [x for x in syms if not self.known(x)]
            for k in d:             # a list put together on a branch of a loop here, by a comprehension there
                x, y = (z.raw.get(k) for z in (p, q))
                if isinstance(x, Term) and isinstance(y, Term) and partly(x) != partly(y):
                    odd.append("a list built in the branches of a loop")
            if odd:
                self.ctx.skip(rule, name, "operations outside of the comparison: %s" % ", ".join(sorted(odd)[:4]))
                continue
            if good and unknown and not d:
                continue
            k = sorted(d, key=repr)[0]
            self.ctx.bad(rule, name, p.where.get(k, q.st and code.where()), self.message(k, p, q), path=st.path()[:1500])
        return got

    def known(self, sym):
        if sym in self.vocab:
            return True
        k, _, n = sym.partition(":")
        if k in ("tm", "g", "m", "f") and n.split(".")[-1] in self.words:
            return True
        if k == "tm":
            return n in INTERPRETED
        if k == "g":
            return n in BUILTINS or n.split(".")[-1] in INTERPRETED
        if k == "m":
            return False
        if k == "f":
            return n in self.specd
        return False

    def inlinable(self, qual):
        """A call of this function always runs this body."""
        f = self.prog.find_func(qual)
        if f is None or f.cls is None or f.name.startswith("__"):
            return True
        return not any(f.name in c.methods for c in self.prog.subclasses(f.cls, True))

    def same(self, p, q):
        """Whether paths with different canonical effects do the same all the same."""
        return False

    @staticmethod
    def diff(p, q):
        out = []
        if ("raises" in p.items) != ("raises" in q.items):
            return ["raises"]
        for k in set(p.items) | set(q.items):
            if p.items.get(k, "absent") != q.items.get(k, "absent"):
                out.append(k)
        return out

    @staticmethod
    def message(k, p, q):
        a, b = p.raw.get(k), q.raw.get(k)
        sa, sb = (show(a, 9)[:300] if isinstance(a, tuple) else "nothing"), (show(b, 9)[:300] if isinstance(b, tuple) else "nothing")
        if k == "returns":
            return "returns %s where the reference gives %s" % (sa, sb)
        if k == "raises":
            return "raises %s where the reference has %s" % (p.items.get(k, "nothing"), q.items.get(k, "nothing"))
        if k[0] == "call":
            return ("calls %s, which the reference does not" % sa) if a is not None else ("does not call %s" % sb)
        if k[0] == "order":
            return "calls %s %s %s, the reference does not" % (k[1], "before" if a is not None else "not before", k[3])
        if k[0] == "store":
            return "sets %s to %s where the reference gives %s" % (k[2], sa, sb)
        if k[0] == "changes":
            return "changes its argument to %s where the reference gives %s" % (sa, sb)
        return "%s: %s where the reference gives %s" % (k[0], sa, sb)
