"""C05: a pulse moves the weight in the direction of its sign by that direction's step, and no operation leaves a weight outside its bounds."""
from sa.cxxinterp import CInterp, TooMany
from sa.poly import Canon
from sa.terms import T, C, walk, show

TITLE = "Every pulse moves a weight in its direction and within its bounds"
THIS = T("this")


def tname(cls):
    return cls.replace("RPU::", "").split("<")[0]


def cell(t):
    """(array, row, index) of a two-level cell; None otherwise."""
    if t[0] == "i" and t[1][0] == "i":
        base = t[1][1]
        if base[0] == "f" and base[1] is THIS:
            return base[2], t[1][2], t[2]
        if base[0] == "par":
            return base[1], t[1][2], t[2]
    return None


def arr(t):
    c = cell(t)
    return c[0] if c else None


class Path:
    def __init__(self, st, f):
        self.st = st
        self.final, self.where, self.order = {}, {}, []
        for e in st.events:
            if e[0] == "w" and arr(e[1]):
                self.final[e[1]] = e[2]
                self.where[e[1]] = "%s:%d" % (e[4], e[3] or f["line"])
                self.order.append(e[1])

    def by(self, *names):
        return [c for c in self.final if arr(c) in names]

    def polarity(self):
        """+1, -1, 0 (no pulse) or None."""
        sx = sd = sc = None
        for k, v in self.st.facts.items():
            if k[0] != "cmp" or not (k[3][0] == "c" and k[3][1] == 0):
                continue
            op, a = k[1], k[2]
            neg = False
            while a[0] == "u" and a[1] == "-":
                a, neg = a[2], not neg
            if op in ("<=", ">="):
                op, v = {"<=": ">", ">=": "<"}[op], not v
            if op == "==":
                if a[0] == "i" and a[1] == T("par", "coincidences") and v:
                    return 0
                continue
            if op not in ("<", ">"):
                continue
            pos = (op == ">") == v          # the pulse counts are never zero here
            if neg:
                pos = not pos
            if a[0] == "i" and a[1] == T("par", "coincidences"):
                sc = pos
            elif a[0] == "i" and a[1] == T("par", "x_signed_indices"):
                sx = pos
            elif a == T("par", "d_sign"):
                sd = pos
        if sc is not None:
            return 1 if sc else -1
        if sx is None or sd is None:
            return None
        return 1 if sx == sd else -1

    def xsign(self):
        for k, v in self.st.facts.items():
            if k[0] == "cmp" and k[1] in ("<", ">") and k[2][0] == "i" and k[2][1] == T("par", "x_signed_indices") and k[3] == C(0.0):
                return (k[1] == ">") == v
        return None


def is_limit(v):
    """A bound, or a bound tightened by a clip value."""
    n = arr(v)
    if n and n.endswith("_bound_"):
        return {v}
    if v[0] == "mm":
        for a, b in ((v[2], v[3]), (v[3], v[2])):
            x = is_limit(a)
            if x and {arr(y) for y in x} == {"w_max_bound_" if v[1] == "min" else "w_min_bound_"} and not any(arr(t) for t in walk(b)):
                return x
    return set()


def unclamp(v, st):
    """(core value, names of the arrays it is bounded by from above, from below)"""
    up, lo = set(), set()
    while v[0] == "mm":
        a, b = v[2], v[3]
        if is_limit(a):
            a, b = b, a
        n = is_limit(b)
        if not n:
            break
        for x in n:
            (up if v[1] == "min" else lo).add(x)
        v = a
    if arr(v) == "w_max_bound_":        # `if (w > max) w = max`
        up.add(v)
        lo.add("max")
    if arr(v) == "w_min_bound_":
        lo.add(v)
        up.add("min")
    for k, b in st.facts.items():
        if k[0] == "cmp" and k[2] == v and arr(k[3]):
            if (k[1] in (">", ">=")) != b and arr(k[3]) == "w_max_bound_":
                up.add(k[3])
            if (k[1] in ("<", "<=")) != b and arr(k[3]) == "w_min_bound_":
                lo.add(k[3])
    return v, up, lo


def bounded(up, lo):
    n = {x if isinstance(x, str) and x in ("max", "min") else arr(x) for x in up}
    m = {x if isinstance(x, str) and x in ("max", "min") else arr(x) for x in lo}
    return bool(n & {"w_max_bound_", "min"}) and bool(m & {"w_min_bound_", "max"})


def terms(v, sign=1):
    """Additive terms of a value with their signs."""
    if v[0] == "b" and v[1] in "+-":
        return terms(v[2], sign) + terms(v[3], sign if v[1] == "+" else -sign)
    if v[0] == "u" and v[1] == "-":
        return terms(v[2], -sign)
    return [(sign, v)]


def factors(v):
    if v[0] == "b" and v[1] == "*":
        return factors(v[2]) + factors(v[3])
    if v[0] == "b" and v[1] == "/":
        return factors(v[2])
    if v[0] == "u" and v[1] == "-":
        return [C(-1.0)] + factors(v[2])
    return [v]


STEP = {"w_scale_up_": 1, "w_scale_down_": -1, "hs_scale_up_": 1, "hs_scale_down_": -1, "w_slope_up_": 1, "w_slope_down_": -1}


def direction(v, sign=1):
    """[(step array, sign)] of the occurrences of step arrays in a sum of products."""
    out = []
    for s, t in terms(v, sign):
        fs = factors(t)
        if any(f[0] == "rand" for f in fs):
            continue            # pure noise
        for n, f in enumerate(fs):
            rest = 1
            for m, g in enumerate(fs):
                if m != n and g[0] == "c" and isinstance(g[1], float) and g[1] < 0:
                    rest = -rest
            # signs of the other factors: a leading minus inside a factor such as max(...) negated
            for m, g in enumerate(fs):
                if m != n and g[0] == "mm" and g[1] == "max" and C(0.0) in (g[2], g[3]):
                    pass
            if arr(f) in STEP:
                out.append((arr(f), s * rest, f))
            elif f[0] in ("b", "u"):
                out += [(a, q * rest, c) for a, q, c in direction(f, s)]
    return out


SIDE_UP, SIDE_DOWN = ("_up", "up_"), ("_down", "down_")


def sides(v):
    """Direction-specific quantities in a value: {'up': names, 'down': names}."""
    out = {"up": set(), "down": set()}
    skip = set()
    for t in walk(v):
        if t[0] == "cc" and t[1] == "size" and t[2][0] == "f":
            skip.add(t[2])
    for t in walk(v):
        if t[0] == "f" and isinstance(t[2], str) and t not in skip:
            n = "_" + t[2].strip("_") + "_"
            if "_up_" in n and "_down_" not in n:
                out["up"].add(t[2])
            elif "_down_" in n and "_up_" not in n:
                out["down"].add(t[2])
    return out


def run_paths(facts, cls, f, I):
    return [Path(s, f) for s in I.run(f, cls=cls) if s.status in (None, "ret") and feasible(s)]


def feasible(st):
    """Persistent weights are used exactly when there is write noise (getScaledWriteNoise > 0)."""
    use = noise = None
    for k, v in st.facts.items():
        if k[0] == "cc" and k[1] == "usesPersistentWeight":
            use = v
        if k[0] == "cmp" and k[1] == ">" and k[2][0] == "cc" and k[2][1] == "getScaledWriteNoise":
            noise = v
    return not (use is False and noise is True)


def device_classes(facts):
    base = "RPU::PulsedRPUDevice<float>"
    out = []
    for name in sorted(facts.records):
        if name == base or not facts.is_sub(name, base) or facts.is_sub(name, "RPU::VectorRPUDevice<float>"):
            continue
        s, d = facts.of_class(name, "doSparseUpdate"), facts.of_class(name, "doDenseUpdate")
        if s or d:
            out.append((name, s, d))
    return out


def crossing(p, c):
    """Threshold of the hidden weight that was crossed on this path: +1, -1 or None."""
    v0 = next(e[2] for e in p.st.events if e[0] == "w" and e[1] == c)
    for k, v in p.st.facts.items():
        if k[0] != "cmp" or k[2] != v0 or k[3][0] != "c":
            continue
        op = k[1] if v else {"<": ">=", ">": "<=", "<=": ">", ">=": "<"}.get(k[1])
        if k[3][1] == 1 and op in (">", ">="):
            return 1
        if k[3][1] == -1 and op in ("<", "<="):
            return -1
    return None


def update_rules(ctx, facts, name, f, dense):
    short = tname(name)
    con = "%s.%s" % (short, f["n"])
    where = "%s:%d" % (f["file"], f["line"])
    I = CInterp(facts, depth=6)
    try:
        paths = run_paths(facts, name, f, I)
    except TooMany:
        ctx.skip("update", con, "too many paths")
        return {}
    seen = {}
    for p in paths:
        pol = p.polarity()
        cells = p.by("weights", "w_persistent_", "hidden_weights_")
        if pol == 0:
            ctx.check(not cells, "idle", con, where, "no pulse, no change", p.st.path())
            continue
        if pol is None:
            if cells:
                if not any(t[0] == "rand" for c in cells for t in walk(p.final[c])) and not p.st.loops:
                    continue
                ctx.skip("direction", con, "polarity unknown on path %s" % p.st.path())
            continue
        pers = p.by("w_persistent_")
        vis = p.by("weights")
        hid = p.by("hidden_weights_")
        state = pers or ([] if hid and not vis else vis)
        pulse_tag, pulse_step = ("down" if pol > 0 else "up"), -pol
        cross = None
        if hid and vis:
            # hidden steps: crossing +-1 makes one visible step in the direction of the crossing
            cross = crossing(p, hid[0])
            if cross is None:
                ctx.check(False, "hidden-crossing", con, p.where[vis[0]], "a visible step is made only when the hidden weight crosses +-1", p.st.path())
                continue
            ctx.check(p.final[hid[0]] == C(0.0), "hidden-reset", con, p.where[hid[0]], "the hidden weight starts over after a visible step", p.st.path())
        # which cell a pulse at index j changes
        for c in cells:
            n, row, ix = cell(c)
            ok = True
            if dense:
                ok = row == C(0.0) and ix[0] == "iv"
            else:
                xs = p.xsign()
                if row != T("par", "i"):
                    ok = False
                if xs is not None:
                    x = next((t for t in walk(ix) if t[0] == "i" and t[1] == T("par", "x_signed_indices")), None)
                    cn = Canon()
                    want = T("b", "-", x if xs else T("u", "-", x), C(1.0)) if x is not None else None
                    ok = ok and want is not None and cn.canon(want) == cn.canon(ix)
            ctx.check(ok, "cell", con, p.where[c], "the pulse changes the weight it belongs to (writes %s)" % show(c)[:80], p.st.path())
        for c in state + hid:
            v = p.final[c]
            hidden = arr(c) == "hidden_weights_"
            step = cross if cross is not None and not hidden else pulse_step
            tag = "down" if step < 0 else "up"
            if hidden:
                # the accumulated value before it is handed over
                vs = [e[2] for e in p.st.events if e[0] == "w" and e[1] == c]
                v = vs[0]
            w = p.where[c]
            ref = None
            v0 = v
            # a device that works relative to a reference shifts the weight by it, and back after clamping
            if v[0] == "b" and v[1] == "-" and arr(v[3]) == "w_reference_":
                ref, v = v[3], v[2]
            core, up, lo = unclamp(v, p.st)
            if not hidden:
                ctx.check(bounded(up, lo), "bounds", "%s[%s]" % (con, tag), w, "the updated weight is limited to w_min_bound_ and w_max_bound_", p.st.path())
                idx = {cell(b)[1:] for b in up | lo if not isinstance(b, str)}
                idx2 = {cell(x)[1:] for x in walk(core) if cell(x)}
                ctx.check(all(i == cell(c)[1:] for i in idx | idx2), "same-index", "%s[%s]" % (con, tag), w,
                          "all device parameters are those of the weight that is changed", p.st.path())
            if arr(core) in ("w_max_bound_", "w_min_bound_"):
                continue
            old = [c] + ([ref] if ref is not None else [])
            ts = terms(core)
            rest = []
            left = list(old)
            for s, t in ts:
                if s > 0 and t in left:
                    left.remove(t)
                else:
                    rest.append((s, t))
            ctx.check(not left, "accumulates", "%s[%s]" % (con, tag), w, "the update is added to the old weight%s (value %s)" % (" relative to the reference" if ref is not None else "", show(v0)[:160]), p.st.path())
            ds = []
            for s, t in rest:
                ds += direction(t, s)
            sd = sides(core)
            other = sd["up"] if step < 0 else sd["down"]
            ctx.check(not other, "side", "%s[%s]" % (con, tag), w, "a %s pulse uses only the parameters of its own direction (found %s)" % (tag, ", ".join(sorted(other)) or "none of the other"), p.st.path())
            mult = [(a, q) for a, q, _ in ds]
            if not mult:
                ctx.check(False, "direction", "%s[%s]" % (con, tag), w, "a %s pulse moves the weight by its step (value %s)" % (tag, show(core)[:160]), p.st.path())
            else:
                ctx.check(all(q == step for a, q in mult), "direction", "%s[%s]" % (con, tag), w,
                          "a %s pulse moves the weight %s (step enters with %s)" % (tag, tag, ", ".join("%s%s" % ("+" if q > 0 else "-", a) for a, q in mult)), p.st.path())
            cn = Canon(lambda t: ("cell", arr(t)) if arr(t) else None)
            if not hidden:
                seen.setdefault(tag, set()).add(cn.canon(core))
        tag = pulse_tag
        # the visible weight follows the persistent one
        if pers:
            noise = [k for k, v in p.st.facts.items() if v and k[0] == "cmp" and k[2][0] == "cc" and k[2][1] == "getScaledWriteNoise"]
            pv = p.final[pers[0]]
            for c in vis:
                v = p.final[c]
                ts = terms(v)
                okv = v == pv or any(s > 0 and t == pv for s, t in ts) or all((s, t) in ts for s, t in terms(pv))
                ctx.check(okv and cell(c)[1:] == cell(pers[0])[1:], "visible", "%s[%s]" % (con, tag), p.where[c], "the visible weight is the updated persistent weight plus write noise", p.st.path())
                if noise:
                    ctx.check(any(t[0] == "rand" for s, x in ts for t in factors(x)), "write-noise", "%s[%s]" % (con, tag), p.where[c], "write noise is added to the visible weight", p.st.path())
            if noise:
                ctx.check(bool(vis), "visible", "%s[%s]" % (con, tag), where, "the visible weight is renewed when write noise is on", p.st.path())
    for tag in ("down", "up"):
        ctx.check(bool(seen.get(tag)), "acts", "%s[%s]" % (con, tag), where, "a %s pulse changes the weight on some path" % tag)
    return seen


OPS = ("decayWeights", "diffuseWeights", "clipWeights", "resetCols", "resetAtIndices", "onSetWeights")


def op_rules(ctx, facts):
    cls = "RPU::PulsedRPUDevice<float>"
    for m in OPS:
        for f in facts.of_class(cls, m):
            con = "PulsedRPUDevice.%s/%d" % (m, len(f["params"]))
            I = CInterp(facts, depth=3)
            try:
                paths = run_paths(facts, cls, f, I)
            except TooMany:
                ctx.skip("op", con, "too many paths")
                continue
            for p in paths:
                pers, vis = p.by("w_persistent_"), p.by("weights")
                usep = next((v for k, v in p.st.facts.items() if k[0] == "cc" and k[1] == "usesPersistentWeight"), None)
                want = pers if usep else vis
                for c in want:
                    vs = [e[2] for e in p.st.events if e[0] == "w" and e[1] == c]
                    v = p.final[c]
                    if m == "onSetWeights" and usep:
                        # taken over from the visible weights, which were limited just before
                        continue
                    if arr(v) in ("weights",) and m == "onSetWeights":
                        continue
                    if any(t[0] == "cc" and t[1] == "getScaledWriteNoise" for t in walk(v)):
                        continue
                    core, up, lo = unclamp(v, p.st)
                    ctx.check(bounded(up, lo), "op-bounds", con, p.where[c], "the weight stays within w_min_bound_ and w_max_bound_ (value %s)" % show(v)[:140], p.st.path())
                    cn = Canon()
                    same = all(flat_same(cn, cell(b)[1:], cell(c)[1:]) for b in up | lo if not isinstance(b, str))
                    ctx.check(same, "op-index", con, p.where[c], "the bounds are those of the weight that is changed", p.st.path())
                    op_value(ctx, con, m, f, p, c, core)
                if m == "onSetWeights":
                    first = next((e for e in p.st.events if e[0] == "w" and arr(e[1]) == "weights"), None)
                    ws = [e for e in p.st.events if e[0] == "w" and arr(e[1]) == "weights"]
                    lim = [unclamp(e[2], p.st) for e in ws]
                    ctx.check(any(bounded(u, l) for _, u, l in lim), "op-bounds", con, "%s:%d" % (f["file"], f["line"]), "weights that are set are limited to the bounds", p.st.path())
                    if usep:
                        ctx.check(bool(pers), "op-persistent", con, "%s:%d" % (f["file"], f["line"]), "the persistent weights take over the weights that are set", p.st.path())
                        for c in pers:
                            v = p.final[c]
                            k = [n for n, e in enumerate(p.st.events) if e[0] == "w" and e[1] == c]
                            lim_at = [n for n, e in enumerate(p.st.events) if e[0] == "w" and arr(e[1]) == "weights" and bounded(*unclamp(e[2], p.st)[1:])]
                            ctx.check(arr(v) == "weights" and cell(v)[1:] == cell(c)[1:] and lim_at and min(lim_at) < k[0] or bounded(*unclamp(v, p.st)[1:]),
                                      "op-persistent", con, p.where[c], "the persistent weight is the limited weight of the same position", p.st.path())
                if usep and m not in ("onSetWeights", "resetAtIndices"):
                    noise_on = any(v and k[0] == "cc" and k[1] == "implementsWriteNoise" for k, v in p.st.facts.items())
                    if noise_on:
                        ctx.check(bool(vis), "op-visible", con, "%s:%d" % (f["file"], f["line"]), "the visible weights are renewed from the persistent ones", p.st.path())


def flat_same(cn, a, b):
    """Same position, whether written [i][j] or [0][i * x_size + j]."""
    if a == b:
        return True

    def flat(p):
        row, ix = p
        if row == C(0.0):
            return cn.canon(ix)
        return cn.canon(T("b", "+", T("b", "*", row, T("f", THIS, "x_size_")), ix))
    return flat(a) == flat(b)


def op_value(ctx, con, m, f, p, c, core):
    cn = Canon(lambda t: ("cell", arr(t)) if arr(t) and arr(t) != arr(c) else None)
    W = c
    b = T("i", T("i", T("f", THIS, "w_reset_bias_"), C(0.0)), cell(c)[2])
    if m == "decayWeights":
        wd = T("i", T("i", T("f", THIS, "w_decay_scale_"), C(0.0)), cell(c)[2])
        s = wd
        if len(f["params"]) == 3:
            s = T("b", "+", C(1.0), T("b", "*", T("par", f["params"][1][0]), T("b", "-", wd, C(1.0))))
        xs = T("f", THIS, "x_size_")
        lastcol = cn.canon(T("b", "-", T("b", "%", cell(c)[2], xs), T("b", "-", xs, C(1.0))))
        last = [k for k, v in p.st.facts.items() if v and k[0] == "cmp" and k[1] == "==" and cn.canon(T("b", "-", k[2], k[3])) in (lastcol, tuple((m, -q) for m, q in lastcol))]
        want = T("b", "+", T("b", "*", T("b", "-", W, b), s), b)
        keep = W
        got = cn.canon(core)
        bias = any(k == T("par", "bias_no_decay") and v for k, v in p.st.facts.items())
        ok = got == (cn.canon(keep) if bias and last else cn.canon(want))
        ctx.check(ok, "decay", con, p.where[c], "the weight decays toward its reset bias by its own decay scale%s (value %s)" % (" except in the bias column" if bias else "", show(core)[:160]), p.st.path())
    elif m == "diffuseWeights":
        r = T("i", T("i", T("f", THIS, "w_diffusion_rate_"), C(0.0)), cell(c)[2])
        ok = cn.canon(core) == cn.canon(T("b", "+", W, T("b", "*", r, T("rand", "sampleGauss", 1, ()))))
        ctx.check(ok, "diffusion", con, p.where[c], "the weight diffuses by its own rate (value %s)" % show(core)[:160], p.st.path())
    elif m in ("resetCols", "resetAtIndices"):
        ts = terms(core)
        ok = any(s > 0 and arr(t) == "w_reset_bias_" for s, t in ts) and not any(arr(t) in ("weights", "w_persistent_") for s, t in ts)
        ctx.check(ok, "reset", con, p.where[c], "a reset weight goes to its reset bias (value %s)" % show(core)[:160], p.st.path())


def run(ctx):
    facts = ctx.cxx()
    for name, s, d in device_classes(facts):
        short = tname(name)
        got = {}
        for f, dense in [(x, False) for x in s] + [(x, True) for x in d]:
            got[dense] = update_rules(ctx, facts, name, f, dense)
        if len(got) == 2:
            for tag in ("down", "up"):
                a, b = got[False].get(tag, set()), got[True].get(tag, set())
                where = "%s:%d" % (s[0]["file"], s[0]["line"])
                if a and b:
                    ctx.check(a == b, "sparse-dense", "%s[%s]" % (short, tag), where, "the sparse and the dense update make the same step (%d and %d forms)" % (len(a), len(b)))
    op_rules(ctx, facts)
