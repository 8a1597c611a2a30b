"""C04: hidden device parameters are written back where they were read from; the inverted copy mirrors the other device."""
from sa.cdep import peel
from sa.bindings import walk
from rules.c03 import mpath, vroot

TITLE = "Hidden device parameters are set into the place they were read from"

# name of the hidden parameter -> member that holds it (confirmed by reading the device headers)
MEMBER = {"max_bound": "w_max_bound_", "min_bound": "w_min_bound_", "dwmin_up": "w_scale_up_", "dwmin_down": "w_scale_down_",
          "decay_scales": "w_decay_scale_", "diffusion_rates": "w_diffusion_rate_", "reset_bias": "w_reset_bias_", "drift_nu": "wdrifter_.Nu",
          "persistent_weights": "w_persistent_", "slope_up": "w_slope_up_", "slope_down": "w_slope_down_", "gamma_up": "w_gamma_up_",
          "gamma_down": "w_gamma_down_", "reference": "w_reference_", "pow_gamma_up": "w_gamma_up_", "pow_gamma_down": "w_gamma_down_",
          "hidden_weights": "hidden_weights_", "hs_scale_up": "hs_scale_up_", "hs_scale_down": "hs_scale_down_",
          "hidden_weights_chi": ".Chi", "buffered_FP_weight": "transfer_buffer_vec_", "running_mean_weight": "running_mean_",
          "past_mean_weight": "past_mean_"}


class Unknown(Exception):
    pass


class Val:
    """Symbolic integer: sum of atoms (name -> count), each with the guards under which it was added."""
    def __init__(self, parts=None):
        self.parts = dict(parts or {})

    def add(self, atom, n=1, guard=()):
        v = Val(self.parts)
        k = (atom, guard)
        v.parts[k] = v.parts.get(k, 0) + n
        if v.parts[k] == 0:
            del v.parts[k]
        return v

    def plus(self, o, s=1):
        v = self
        for (a, g), n in o.parts.items():
            v = v.add(a, s * n, g)
        return v

    def key(self):
        return tuple(sorted((str(a), "&".join(map(str, g)), n) for (a, g), n in self.parts.items()))

    def const(self):
        if all(a == 1 and not g for a, g in self.parts):
            return self.parts.get((1, ()), 0)
        return None


def gkey(e):
    """Text of a branch condition that does not depend on local names."""
    e = peel(e)
    if not isinstance(e, list) or not e:
        return str(e)
    if e[0] == "mcall" and isinstance(e[2], dict):
        return "%s.%s" % (gkey(e[1]), e[2]["n"])
    if e[0] == "mem":
        return "%s.%s" % (gkey(e[1]), e[2])
    if e[0] == "un":
        return "%s%s" % (e[1], gkey(e[2]))
    if e[0] == "bin":
        return "(%s %s %s)" % (gkey(e[2]), e[1], gkey(e[3]))
    return " ".join(gkey(x) if isinstance(x, list) else str(x) for x in e)


def conj(e):
    e = peel(e)
    if e and e[0] == "bin" and e[1] == "&&":
        return conj(e[2]) + conj(e[3])
    return [gkey(e)]


class Walk:
    """One pass over a body, tracking integer locals and collecting the accesses to the pointer vector."""
    def __init__(self, facts, f, ptrs):
        self.facts, self.f, self.ptrs = facts, f, ptrs
        self.env = {}
        self.alias = {}
        self.loops = []          # (variable, start Val)
        self.acc = []            # (slot key, guards, kind, other, line)
        self.pushes = []         # (text, guards, line)
        self.calls = []          # (receiver text, method, class)
        self.guards = ()
        self.last = None
        self.line = 0

    def val(self, e):
        e = peel(e)
        k = e[0]
        if k == "int":
            return Val({(1, ()): int(e[1])})
        if k == "var":
            if e[1] in self.env:
                return self.env[e[1]]
            for name, start in self.loops:
                if name == e[1]:
                    return start.add("k%d" % [n for n, _ in self.loops].index(name))
            return Val({("var " + e[1], ()): 1})
        if k == "bin" and e[1] in "+-":
            return self.val(e[2]).plus(self.val(e[3]), 1 if e[1] == "+" else -1)
        if k == "un" and e[1] == "post++" and peel(e[2])[0] == "var":
            v = self.val(e[2])
            self.inc(peel(e[2])[1])
            return v
        if k == "un" and e[1] == "++" and peel(e[2])[0] == "var":
            self.inc(peel(e[2])[1])
            return self.val(e[2])
        if k == "mcall" and isinstance(e[2], dict) and e[2]["n"] == "size":
            r = vroot(e[1])
            if r:
                return Val({("size(%s)" % self.alias.get(r, r), ()): 1})
        p = mpath(e)
        if p:
            return Val({(p, ()): 1})
        raise Unknown()

    def inc(self, name):
        self.env[name] = self.env.get(name, Val({("var " + name, ()): 1})).add(1, 1, self.guards)

    def slot(self, e):
        """Slot of data_ptrs[...] (or None)."""
        e = peel(e)
        if e and e[0] == "opcall" and e[1] == "[]" and peel(e[2][0]) == ["var", self.ptrs]:
            return self.val(e[2][1])
        if e and e[0] == "mcall" and isinstance(e[2], dict) and e[2]["n"] == "at" and peel(e[1]) == ["var", self.ptrs]:
            return self.val(e[3][0])
        if e and e[0] == "idx" and peel(e[1]) == ["var", self.ptrs]:
            return self.val(e[2])
        return None

    def elem_slot(self, e):
        e = peel(e)
        if e and e[0] == "idx":
            return self.slot(e[1])
        return None

    def expr(self, e, line):
        self.line = line
        e = peel(e)
        if not isinstance(e, list) or not e:
            return
        k = e[0]
        if k == "asg":
            s = self.elem_slot(e[1])
            if s is not None:
                self.acc.append((s, self.guards, "get", mpath(e[2]), line))
                return
            s = self.elem_slot(e[2])
            if s is not None:
                self.acc.append((s, self.guards, "set", mpath(e[1]), line))
                return
            t = peel(e[1])
            if t and t[0] == "var":
                try:
                    self.env[t[1]] = self.val(e[2])
                except Unknown:
                    self.env.pop(t[1], None)
                return
        if k == "casg" or (k == "cas"):
            pass
        if k == "un" and e[1] in ("++", "post++"):
            t = peel(e[2])
            if t and t[0] == "var":
                self.inc(t[1])
                return
        if k == "aug":
            op = e[1]
            t = peel(e[2])
            if op == "+=" and t and t[0] == "var" and t[1] in self.env:
                self.env[t[1]] = self.env[t[1]].plus(self.val(e[3]))
                return
        if k in ("mcall", "call"):
            args = e[3] if k == "mcall" else e[2]
            c = e[2] if k == "mcall" else e[1]
            if k == "mcall" and isinstance(c, dict):
                if c["n"] == "push_back":
                    if vroot(e[1]) == "names":
                        self.pushes.append((name_of(args[0], self.alias), self.guards, line))
                        return
                recv = mpath(e[1]) or ("this" if peel(e[1]) == ["this"] else vroot(e[1]))
                self.calls.append((recv, c["n"], c.get("cls", "") if c.get("qual") or recv != "this" else "", line))
                for a in args:
                    s = self.slot(a) if isinstance(a, list) else None
                    if s is not None:
                        n = c["n"]
                        if n[:3] in ("get", "set"):
                            self.acc.append((s, self.guards, n[:3], (recv if recv != "this" else "") + "." + n[3:], line))
                        return
                if c["n"] == "copy" and len(args) >= 4:
                    return
            if k == "call" and isinstance(c, dict) and c.get("n") == "copy" and len(args) >= 4:
                a, b = args[1], args[3]
                sa, sb = self.slot(a), self.slot(b)
                if sb is not None:
                    self.acc.append((sb, self.guards, "get", mpath(a), line))
                elif sa is not None:
                    self.acc.append((sa, self.guards, "set", mpath(b), line))
                return
        if k == "opcall" and e[1] == "<<":
            # stream: remember the text for the stringstream variable
            txt = stream_text(e)
            r = stream_root(e)
            if r:
                self.alias[("ss", r)] = self.alias.get(("ss", r), "") + txt

    def stmts(self, s):
        if not isinstance(s, list) or not s:
            return
        k = s[0]
        if k == "block":
            for x in s[1]:
                self.stmts(x)
        elif k == "decl":
            init = s[3]
            try:
                if init is not None and s[2] in ("int", "size_t", "unsigned long", "unsigned int", "const int", "const size_t", "long"):
                    self.env[s[1]] = self.val(init)
                elif isinstance(init, list) and "string" in str(s[2]) and not "vector" in str(s[2]):
                    t = first_str(init)
                    if t is not None:
                        self.alias[("ss", s[1])] = t
            except Unknown:
                self.env.pop(s[1], None)
        elif k == "if":
            if is_fatal(s[2]):
                return self.stmts(s[3])
            pre = dict(self.env)
            g0 = self.guards
            self.guards = tuple(sorted(set(g0 + tuple(conj(s[1])))))
            if returns(s[2]):
                # early return: the rest is under the negation, which carries no slot
                self.guards = g0
                return
            self.stmts(s[2])
            post = dict(self.env)
            self.guards = tuple(sorted(set(g0 + ("!(%s)" % "&&".join(conj(s[1])),))))
            self.env = dict(pre)
            self.stmts(s[3])
            for n in post:
                if n not in pre or post[n].key() != pre[n].key():
                    self.env[n] = post[n]
            self.guards = g0
        elif k == "for":
            init = s[1]
            v, start = loop_var(init)
            if v is None:
                self.stmts(init)
            else:
                try:
                    self.loops.append((v, self.val(start)))
                except Unknown:
                    self.loops.append((v, Val()))
                self.env.pop(v, None)
            pre = dict(self.env)
            n0 = len(self.acc)
            self.stmts(s[4])
            post = dict(self.env)
            if v is not None:
                idx = len(self.loops) - 1
                # a counter that advances in the loop: its value in iteration k is start + k * step
                for n in pre:
                    step = post.get(n, pre[n]).plus(pre[n], -1)
                    if step.parts and self.used_in(n0):
                        for j in range(n0, len(self.acc)):
                            sl = self.acc[j]
                            if self.depends(sl[0], pre[n]):
                                extra = Val({("k%d*%s" % (idx, a) if a != 1 else "k%d" % idx, g): c for (a, g), c in step.parts.items()})
                                self.acc[j] = (sl[0].plus(extra),) + sl[1:]
                self.loops.pop()
            self.env = {**pre, **{n: post[n] for n in post if n not in pre or True}}
        elif k in ("while", "do"):
            self.stmts(s[2])
        elif k == "forrange":
            self.stmts(s[4])
        elif k == "expr":
            self.expr(s[1], s[2])

    def used_in(self, n0):
        return len(self.acc) > n0

    def depends(self, slot, start):
        return all(slot.parts.get(k, 0) >= n for k, n in start.parts.items())


def first_str(e):
    for n in walk(e):
        if n and n[0] == "str":
            return n[1]
    return None


def stream_text(e):
    out = []
    for n in walk(e):
        if n and n[0] == "str":
            out.append(n[1])
    return "".join(out)


def stream_root(e):
    e = peel(e)
    while e and e[0] == "opcall" and e[1] == "<<":
        e = peel(e[2][0])
    return e[1] if e and e[0] == "var" else None


def name_of(e, alias):
    t = first_str(e)
    if t is not None:
        return t
    for n in walk(e):
        if n and n[0] == "var" and ("ss", n[1]) in alias:
            return alias[("ss", n[1])]
    return None


def loop_var(init):
    while init and init[0] == "block" and len(init[1]) == 1:
        init = init[1][0]
    if init and init[0] == "decl":
        return init[1], init[3]
    return None, None


def is_fatal(s):
    """A block that only raises (RPU_FATAL expands to a throw)."""
    return any(n and n[0] in ("throw",) for n in walk(s)) and not any(n and n[0] == "ret" for n in walk(s))


def returns(s):
    return any(n and n[0] == "ret" for n in walk(s))


def short(c):
    return c.replace("RPU::", "").split("<")[0]


def negation(g):
    return g[1:] if g.startswith("!") else "!" + g


def writes(facts, cls, name, given=(), depth=2, seen=None):
    """Members that method `name`, looked up from cls, assigns when the conditions `given` hold."""
    seen = seen if seen is not None else set()
    out = {}

    def visit(n):
        if not isinstance(n, list) or not n:
            return
        if n[0] == "if":
            c = conj(n[1])
            if not any(negation(g) in given for g in c):
                visit(n[2])
            if not (len(c) == 1 and c[0] in given):
                visit(n[3])
            return
        if n[0] == "asg":
            p = mpath(n[1])
            if p:
                out.setdefault(p, 1)
        if depth and n[0] == "mcall" and peel(n[1]) == ["this"] and isinstance(n[2], dict):
            out.update(writes(facts, cls if not n[2].get("qual") else n[2]["cls"], n[2]["n"], given, depth - 1, seen))
        for x in n:
            if isinstance(x, list):
                visit(x)

    for f in facts.method(cls, name):
        if (f["cls"], name) not in seen:
            seen.add((f["cls"], name))
            visit(f["body"])
    return out


def run(ctx):
    facts = ctx.cxx(rpu=True)
    owners = sorted({f["cls"] for f in facts.funcs.values() if f["n"] in ("getDeviceParameter", "setDeviceParameter", "getDPNames")
                     and f.get("cls") and "SimpleRPUDevice<" not in f["cls"] and "RPUPulsed" not in f["cls"] and "RPUSimple" not in f["cls"]})
    ctx.need(len(owners) >= 8, "device classes with hidden parameters")
    for cls in owners:
        slots(ctx, facts, cls)
    for cls in sorted({f["cls"] for f in facts.funcs.values() if f["n"] == "copyInvertDeviceParameter" and f.get("cls")}):
        inverted(ctx, facts, cls)


def one(facts, cls, name):
    fs = facts.of_class(cls, name)
    return fs[0] if fs else None


def slots(ctx, facts, cls):
    sc = short(cls)
    fn, fg, fs = one(facts, cls, "getDPNames"), one(facts, cls, "getDeviceParameter"), one(facts, cls, "setDeviceParameter")
    where = lambda f: "%s:%s" % (f["file"], f["line"]) if f else ""
    any_f = fg or fs or fn
    ctx.check(bool(fg) == bool(fs), "pair", sc, where(any_f), "the hidden parameters of %s are %s but not %s" % (
        sc, "read" if fg else "set", "set" if fg else "read"))
    if not (fg and fs):
        return
    ws = {}
    for tag, f, ptr in (("names", fn, None), ("get", fg, None), ("set", fs, None)):
        if f is None:
            continue
        par = [p[0] for p in f["params"]]
        w = Walk(facts, f, par[-1] if par else "")
        try:
            w.stmts(f["body"])
        except Unknown:
            ctx.notes.append("%s.%s: slot expression not understood" % (sc, f["n"]))
            return
        ws[tag] = w
    # base class and owned devices
    for meth, tag in (("getDeviceParameter", "get"), ("setDeviceParameter", "set")):
        pass
    part = {}
    for tag, meth in (("names", "getDPNames"), ("get", "getDeviceParameter"), ("set", "setDeviceParameter")):
        if tag in ws:
            part[tag] = {("the base class" if r == "this" else str(r)) for r, n, c, _ in ws[tag].calls if n == meth and not (r == "this" and not c)}
    for p in sorted(part.get("get", set()) | part.get("set", set())):
        for tag in part:
            ctx.check(p in part[tag], "part", "%s/%s/%s" % (sc, p, tag), where({"names": fn, "get": fg, "set": fs}[tag]),
                      "the hidden parameters of part '%s' are not handled by the '%s' side of %s" % (p, tag, sc))
    gets = {}
    for s, g, kind, other, line in ws["get"].acc:
        if kind == "get" and other is not None:
            gets[s.key()] = (other, g, line)
    sets = {}
    for s, g, kind, other, line in ws["set"].acc:
        if kind == "set":
            sets[s.key()] = (other, g, line)
    for k in sorted(set(gets) | set(sets)):
        a, b = gets.get(k), sets.get(k)
        m = (a or b)[0]
        if a is None or b is None:
            ctx.bad("slot", "%s/%s" % (sc, m), "%s:%d" % ((fs if a else fg)["file"], (fs if a else fg)["line"]),
                    "hidden parameter held in '%s' is %s but never %s at the same position" % (m, "read" if a else "set", "set back" if a else "read"))
            continue
        ctx.check(a[0] == b[0], "slot", "%s/%s" % (sc, m), "%s:%d" % (fs["file"], b[2]),
                  "the hidden parameter read from '%s' is set into '%s'" % (a[0], b[0]))
        ctx.check(set(a[1]) == set(b[1]), "slot-guard", "%s/%s" % (sc, m), "%s:%d" % (fs["file"], b[2]),
                  "'%s' is read under %s but set under %s" % (m, list(a[1]) or "no condition", list(b[1]) or "no condition"))
    # names: position by position
    if fn and gets:
        own = [(t, g) for t, g, _ in ws["names"].pushes if t is None or t.strip("_")]
        order = sorted(gets.items(), key=lambda kv: (kv[1][2], kv[0]))
        base = {k: v for k, v in gets.items()}
        # order the slots by how many unconditional/conditional positions precede them
        ranked = sorted(base.items(), key=lambda kv: (sum(n for a, g, n in kv[0] if a == "1"), kv[0]))
        if all(t is not None for t, _ in own):
            ctx.check(len(own) == len(ranked), "names-count", sc, where(fn),
                      "%d names are declared but %d parameters are read" % (len(own), len(ranked)))
            if len(own) == len(ranked):
                for (t, g), (k, (m, gg, line)) in zip(own, ranked):
                    exp = MEMBER.get(t.rstrip("_"))
                    if exp is None or m is None:
                        continue
                    ctx.check(m == exp or m.endswith(exp) and exp.startswith("."), "name", "%s/%s" % (sc, t), "%s:%d" % (fg["file"], line),
                              "the hidden parameter named '%s' is read from '%s'" % (t, m))
                    extra = {x for x in gg if "hasWDrifter" not in x}
                    ctx.check(set(g) == extra, "name-guard", "%s/%s" % (sc, t), "%s:%d" % (fg["file"], line),
                              "'%s' is named under %s but read under %s" % (t, list(g) or "no condition", sorted(extra) or "no condition"))
    # what is set is not overwritten afterwards in the same function
    setline = {}
    for s, g, kind, other, line in ws["set"].acc:
        if kind == "set" and other:
            setline[other.split(".")[0]] = (line, g)
    for r, n, c, line in ws["set"].calls:
        if r != "this" or n in ("getDPNames", "setDeviceParameter", "getPar"):
            continue
        for m, (l0, g) in setline.items():
            wr = writes(facts, cls, n, g)
            if l0 <= line and fs["file"].endswith(".cpp"):
                ctx.check(m not in wr, "kept", "%s/%s" % (sc, m), "%s:%d" % (fs["file"], line),
                          "'%s', just set from the hidden parameters, is overwritten by %s()" % (m, n))


def inverted(ctx, facts, cls):
    """copyInvertDeviceParameter: what is taken over comes from the other device, mirrored up <-> down."""
    sc = short(cls)
    f = one(facts, cls, "copyInvertDeviceParameter")
    if f is None or "PulsedRPUDeviceBase" in cls:
        return
    other = set()
    alias = {}
    param = f["params"][0][0]
    other.add(param)
    getters = {}
    for g in facts.of_class(cls):
        if g["n"].startswith("get") and g.get("body"):
            r = [n for n in walk(g["body"]) if n and n[0] == "ret"]
            if len(r) == 1 and r[0][1] is not None:
                p = mpath(r[0][1])
                if p:
                    getters[g["n"]] = p
    pairs, selfread = {}, []

    def src(e):
        """(member, sign, from_other) of a source expression."""
        e = peel(e)
        if e and e[0] == "un" and e[1] == "-":
            r = src(e[2])
            return r and (r[0], -r[1], r[2])
        while e and e[0] in ("idx",):
            e = peel(e[1])
        while e and e[0] == "idx":
            e = peel(e[1])
        if e and e[0] == "var" and e[1] in alias:
            return alias[e[1]]
        if e and e[0] == "mem":
            b = peel(e[1])
            if b and b[0] == "un" and b[1] == "*":
                b = peel(b[2])
            if b and b[0] == "var" and b[1] in other:
                return (e[2], 1, True)
            if b == ["this"]:
                return (e[2], 1, False)
        if e and e[0] == "mcall" and isinstance(e[2], dict) and e[2]["n"] in getters:
            b = peel(e[1])
            fo = bool(b and b[0] == "var" and b[1] in other)
            return (getters[e[2]["n"]], 1, fo)
        return None

    nodes = [n for n in walk(f["body"]) if n]
    decls = [n for n in nodes if n[0] == "decl"]
    for n in decls * 3 + [n for n in nodes if n[0] != "decl"]:
        if n[0] == "decl" and n[3] is not None:
            if any(x and x[0] == "var" and x[1] in other for x in walk(n[3])) and src(n[3]) is None:
                other.add(n[1])
            else:
                s = src(n[3])
                if s:
                    alias[n[1]] = s
        elif n[0] == "asg":
            t = mpath(n[1])
            s = src(n[2])
            if t and s:
                pairs[t] = s
        elif n[0] == "call" and isinstance(n[1], dict) and n[1].get("n") == "swap" and len(n[2]) == 2:
            a, b = mpath(n[2][0]), mpath(n[2][1])
            if a and b:
                pairs[a], pairs[b] = (b, 1, False), (a, 1, False)
    for t, (m, sign, fo) in sorted(pairs.items()):
        w = "%s:%s" % (f["file"], f["line"])
        ctx.check(fo, "invert-source", "%s/%s" % (sc, t), w, "'%s' is mirrored from the device itself instead of the device that is copied" % t)
        back = pairs.get(m)
        ctx.check(back is not None and back[0] == t and back[1] == sign, "invert-mirror", "%s/%s" % (sc, t), w,
                  "'%s' is taken from '%s'%s, but '%s' is taken from %s" % (t, m, " with the sign changed" if sign < 0 else "", m,
                                                                        "'%s'" % back[0] if back else "nothing"))
