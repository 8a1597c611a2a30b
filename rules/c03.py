"""C03: the saved state of a simulator tile is complete and every entry is restored where it came from."""
from sa.cdep import peel
from sa.bindings import walk

TITLE = "Saved simulator state is complete and restored into the place it came from"

CFG = "follows from the configuration and the sizes when the object is created"
BUF = "scratch buffer, filled by the operation that uses it"
RNG = "a random generator: restored tiles draw new numbers"
EXT = "storage or a pointer that belongs to someone else"
SUB = "fixed by its own saved part"

# members that are not part of the saved state: record -> member -> reason (confirmed by reading)
def table(*rows):
    out = {}
    for rec, reason, members in rows:
        for m in members.split():
            out.setdefault(rec, {})[m] = reason
    return out


EXEMPT = table(
    ("ChoppedTransferRPUDevice", BUF, "x_signed_indices_tmp_"),
    ("DenseBitLineMaker", CFG, "x_size_ d_size_ containers_allocated_"), ("DenseBitLineMaker", RNG, "rw_rng_"),
    ("DenseBitLineMaker", BUF, "coincidences_ d_counts_ x_counts_ d_values_ x_values_"),
    ("OneSidedRPUDevice", CFG, "refresh_vecs_"),
    ("OneSidedRPUDevice", BUF, "a_indices_ b_indices_ refresh_p_tmp_ refresh_m_tmp_ refresh_p_vec_ refresh_m_vec_ coincidences_p_ coincidences_m_"),
    ("PulsedRPUDevice", RNG, "write_noise_rng_"), ("PulsedRPUDevice", CFG, "containers_allocated_"),
    ("MixedPrecRPUDevice", BUF, "qx_index_"),
    ("ForwardBackwardPass", CFG, "x_size_ d_size_"),
    ("ForwardBackwardPassIOManaged", BUF, "tmp_in_values_ tmp_out_values_ tmp_c_values_ current_buffer_values_ in_buffer_values_ out_buffer_values_ "
     "pos_neg_buffer_values_ neg_weights_"),
    ("ForwardBackwardPassIOManaged", CFG, "f_io_ b_io_ checked_implemented_"), ("ForwardBackwardPassIOManaged", RNG, "rng_"),
    ("MixedPrecIntRPUDevice", BUF, "qx_ qx_index_"), ("MixedPrecIntRPUDevice", SUB, "chi_"),
    ("MixedPrecRPUDevice", BUF, "qx_ qd_"), ("MixedPrecRPUDevice", SUB, "chi_"),
    ("MixedPrecRPUDeviceBase", RNG, "rw_rng_ rng_"), ("MixedPrecRPUDeviceBase", BUF, "transfer_d_vecs_"), ("MixedPrecRPUDeviceBase", EXT, "up_ptr_"),
    ("PulsedRPUWeightUpdater", RNG, "rng_"), ("PulsedRPUWeightUpdater", CFG, "up_"),
    ("RPUPulsed", CFG, "par_"),
    ("RPUSimple", EXT, "mutex_ delta_weights_extern_ matrix_indices_ matrix_indices_set_ shared_weights_if_"), ("RPUSimple", RNG, "rng_ rw_rng_"),
    ("RPUSimple", "saved as the weights of the tile", "weights_"), ("RPUSimple", CFG, "par_"),
    ("RPUSimple", BUF, "temp_x_vector_bias_ temp_x_matrix_bias_ temp_tensor_"),
    ("RPUWeightUpdater", CFG, "x_size_ d_size_"), ("SimpleRPUDevice", CFG, "x_size_ d_size_ size_ par_storage_"),
    ("SparseBitLineMaker", CFG, "x_size_ d_size_ max_BL_"),
    ("SparseBitLineMaker", BUF, "n_indices_used_ d_indices_ x_indices_p_ x_indices_n_ d_counts_ x_counts_p_ x_counts_n_"),
    ("TransferRPUDevice", CFG, "transfer_vecs_"), ("TransferRPUDevice", EXT, "last_weight_"), ("TransferRPUDevice", BUF, "transfer_tmp_"),
    ("VectorRPUDevice", CFG, "n_devices_"), ("VectorRPUDevice", RNG, "rw_rng_"),
    ("WeightClipper", BUF, "amax_values_"), ("WeightClipper", CFG, "x_size_ d_size_ size_"),
    ("WeightDrifter", CFG, "size_ par_"),
    ("WeightModifier", CFG, "x_size_ d_size_ size_"), ("WeightModifier", RNG, "rw_rng_"),
    ("WeightRemapper", BUF, "max_values_ min_values_ old_scales_ norm_values_"), ("WeightRemapper", CFG, "x_size_ d_size_ size_"),
)


def mpath(e):
    """Dotted member path of an expression rooted at this; None otherwise."""
    parts = []
    while True:
        e = peel(e)
        if not e:
            return None
        k = e[0]
        if k == "mem":
            parts.append(e[2])
            e = e[1]
        elif k == "this":
            return ".".join(reversed(parts)) if parts else None
        elif k == "idx":
            e = e[1]
        elif k == "un" and e[1] in ("*", "&"):
            e = e[2]
        elif k == "opcall" and e[1] in ("->", "[]", "*"):
            e = e[2][0]
        elif k == "mcall" and isinstance(e[2], dict) and e[2]["n"] in ("data", "get", "begin", "at", "front"):
            e = e[1]
        elif k == "bin" and e[1] == "+":
            e = e[2]
        else:
            return None


def vroot(e):
    """Name of the local variable at the root of an expression."""
    while True:
        e = peel(e)
        if not e:
            return None
        k = e[0]
        if k == "var":
            return e[1]
        if k == "mem" or k == "idx":
            e = e[1]
        elif k == "un" and e[1] in ("*", "&"):
            e = e[2]
        elif k == "opcall" and e[1] in ("->", "[]", "*"):
            e = e[2][0]
        elif k == "mcall" and isinstance(e[2], dict) and e[2]["n"] in ("data", "get", "begin", "at", "front"):
            e = e[1]
        elif k == "bin" and e[1] == "+":
            e = e[2]
        else:
            return None


def mpaths(e):
    out = set()
    stack = [e]
    while stack:
        x = stack.pop()
        if not isinstance(x, list):
            continue
        p = mpath(x)
        if p:
            out.add(p)
            continue
        if x and x[0] == "mcall" and peel(x[1]) == ["this"]:
            pass
        stack.extend(c for c in x if isinstance(c, list))
    return out


def ckey(e, env):
    """Canonical key expression: the string, or the structure with loop variables renamed."""
    e = peel(e)
    if e and e[0] == "new" and e[2]:
        return ckey(e[2][0], env)
    if e and e[0] == "str":
        return e[1]
    if e and e[0] == "var":
        v = env.get(("key", e[1]))
        return v if v is not None else "<%s>" % ("i" if e[1] != "prefix" else "prefix")
    if e and e[0] == "call":
        return "%s(%s)" % (e[1].get("n"), ",".join(ckey(a, env) for a in e[2]))
    if e and e[0] == "opcall":
        return "%s(%s)" % (e[1], ",".join(ckey(a, env) for a in e[2]))
    if e and e[0] == "bin":
        return "%s(%s,%s)" % (e[1], ckey(e[2], env), ckey(e[3], env))
    if e and e[0] in ("int", "cast"):
        return str(e[1])
    if e and e[0] == "defarg":
        return ""
    return "?" + str(e[0] if e else "")


COPYLIKE = {"copy": (1, 3), "memcpy": (1, 0), "copy_n": (0, 2)}


class Side:
    def __init__(self, facts, f, load):
        self.facts, self.f, self.load = facts, f, load
        self.entries = {}       # key -> set of member paths
        self.where = {}
        self.sub = {}           # key -> member path
        self.bases = {}         # class -> (args)
        self.guards = []        # (key, where)
        self.order = []
        self.prefixed = False
        self.varkeys = {}
        self.cond_vars = {}
        self.walk(f["body"], {}, f, 0)

    def loc(self, f, line):
        return "%s:%d" % (f["file"], line or f["line"])

    def walk(self, s, env, f, depth):
        k = s[0]
        if k == "block":
            for x in s[1]:
                self.walk(x, env, f, depth)
        elif k == "if":
            self.expr(s[1], env, f, s[4], depth, cond=True)
            self.walk(s[2], env, f, depth)
            self.walk(s[3], env, f, depth)
        elif k == "for":
            self.walk(s[1], env, f, depth)
            self.walk(s[4], env, f, depth)
        elif k == "forrange":
            d = mpaths(s[3]) if len(s) > 3 else set()
            if d:
                env[s[1]] = d
            self.walk(s[4], env, f, depth)
        elif k in ("while", "do"):
            self.walk(s[2], env, f, depth)
        elif k == "decl":
            if s[3]:
                self.expr(s[3], env, f, s[4], depth)
                e = peel(s[3])
                kk = ckey(s[3], env)
                if not kk.startswith("?") and e[0] in ("new", "str", "call", "opcall") and ("string" in s[2] or "char" in s[2]):
                    env[("key", s[1])] = kk
                d = self.reads(s[3], env)
                if d:
                    env[s[1]] = d
                else:
                    env.pop(s[1], None)
                if s[2].rstrip().endswith(("&", "*")) or "*" in s[2]:
                    p = mpath(s[3])
                    if p:
                        env[("alias", s[1])] = p
        elif k == "expr":
            self.expr(s[1], env, f, s[2], depth)
        elif k == "ret" and s[1]:
            self.expr(s[1], env, f, s[2], depth)
        elif k in ("switch",):
            self.walk(s[2], env, f, depth)
        elif k == "case":
            self.walk(s[2], env, f, depth)
        elif k in ("default", "try"):
            self.walk(s[1], env, f, depth)

    def reads(self, e, env):
        d = mpaths(e)
        for n in walk(e):
            if n and n[0] == "var" and n[1] in env:
                d |= env[n[1]]
        return d

    def target(self, e, env):
        p = mpath(e)
        if p:
            return p
        v = vroot(e)
        return env.get(("alias", v)) if v else None

    def expr(self, e, env, f, line, depth, cond=False):
        for n in walk(e):
            if not n:
                continue
            if n[0] == "mcall" and isinstance(n[2], dict):
                c = n[2]["n"]
                if c in ("dumpExtra", "loadExtra"):
                    obj = peel(n[1])
                    if obj == ["this"]:
                        self.bases[n[2].get("cls")] = [vroot(a) or ckey(a, env) for a in n[3]]
                    else:
                        key = ckey(n[3][1], env)
                        self.sub[key] = self.target(n[1], env) or "/".join(sorted(self.reads(n[1], env)))
                        self.where["sub " + key] = self.loc(f, line)
                    continue
                if c in ("count", "find") and self.load and n[3]:
                    self.guards.append((ckey(n[3][0], env), self.loc(f, line)))
                if peel(n[1]) == ["this"] and depth < 4:
                    self.inline(self.facts.method(n[2].get("cls") or f["cls"], c), n[3], env, depth)
                # container writes into a local: vec.push_back(member)
                v = vroot(n[1])
                if v and c in ("push_back", "insert", "assign", "emplace_back"):
                    d = set()
                    for a in n[3]:
                        d |= self.reads(a, env)
                    if d:
                        env[v] = env.get(v, set()) | d
                if self.load and c in ("assign",):
                    t = self.target(n[1], env)
                    if t:
                        for a in n[3]:
                            self.flow_to(a, t, env, f, line)
            elif n[0] == "call" and isinstance(n[1], dict):
                c, a = n[1]["n"], n[2]
                if c == "insert" and len(a) == 3:
                    key = ckey(a[1], env)
                    self.entries.setdefault(key, set()).update(self.reads(a[2], env))
                    self.where.setdefault(key, self.loc(f, line))
                elif c == "load" and len(a) == 4:
                    key = ckey(a[1], env)
                    self.where.setdefault(key, self.loc(f, line))
                    t = self.target(a[2], env)
                    if t:
                        self.entries.setdefault(key, set()).add(t)
                    else:
                        self.entries.setdefault(key, set())
                        v = vroot(a[2])
                        if v:
                            self.varkeys[v] = {key}
                elif c == "insertWithPrefix":
                    self.prefixed = True
                elif c == "selectWithPrefix":
                    self.prefixed = True
                elif c in COPYLIKE:
                    si, di = COPYLIKE[c]
                    if len(a) > max(si, di):
                        self.assign(a[di], a[si], env, f, line)
                elif depth < 4:
                    fs = self.facts.free(c)
                    if fs and any(x in ("state", "extra") for x in (vroot(y) for y in a)):
                        self.inline(fs, a, env, depth)
            elif n[0] == "asg":
                self.assign(n[1], n[2], env, f, line)
            elif n[0] == "opcall" and n[1] == "=" and len(n[2]) == 2:
                self.assign(n[2][0], n[2][1], env, f, line)
        if cond and self.load:
            for n in walk(e):
                if n and n[0] == "var" and n[1] in self.varkeys:
                    for key in self.varkeys[n[1]]:
                        self.entries[key].add("?condition")

    def assign(self, dst, src, env, f, line):
        t = self.target(dst, env)
        if t:
            if self.load:
                self.flow_to(src, t, env, f, line)
            return
        v = vroot(dst)
        if v:
            d = self.reads(src, env)
            whole = peel(dst)[0] == "var" or peel(dst)[0] == "mcall"
            env[v] = d if whole else env.get(v, set()) | d
            ks = set()
            for n in walk(src):
                if n and n[0] == "var" and n[1] in self.varkeys:
                    ks |= self.varkeys[n[1]]
            if ks:
                self.varkeys[v] = ks

    def flow_to(self, src, t, env, f, line):
        for n in walk(src):
            if n and n[0] == "var" and n[1] in self.varkeys:
                for key in self.varkeys[n[1]]:
                    self.entries[key].add(t)

    def inline(self, fs, args, env, depth):
        for g in fs:
            if len(g["params"]) != len(args) or g["n"] in ("dumpExtra", "loadExtra"):
                continue
            env2 = {}
            for p, a in zip(g["params"], args):
                d = self.reads(a, env)
                if d:
                    env2[p[0]] = d
                kk = ckey(a, env)
                if not kk.startswith(("?", "<")):
                    env2[("key", p[0])] = kk
                t = self.target(a, env)
                if t and ("&" in p[1] or "*" in p[1]):
                    env2[("alias", p[0])] = t
            self.walk(g["body"], env2, g, depth + 1)


def dp_members(facts, name):
    """Members handed out through the named device parameters and hidden weights."""
    out = set()
    for n in ("getDeviceParameter", "getHiddenWeights"):
        for f in facts.of_class(name, n):
            out |= {p.split(".")[0] for p in mpaths(f["body"])}
    return out


def leaves(facts, ty, prefix):
    """Leaf member paths of a nested record."""
    rec = facts.records.get(ty) or facts.records.get("RPU::" + ty)
    if not rec or not rec["fields"] or ty.startswith("std::"):
        return [prefix]
    out = []
    for fl in rec["fields"]:
        out += leaves(facts, fl[1].strip(), prefix + "." + fl[0])
    return out


def run(ctx):
    facts = ctx.cxx()
    pairs = 0
    table = {}
    for name, rec in sorted(facts.records.items()):
        d = facts.of_class(name, "dumpExtra")
        l = facts.of_class(name, "loadExtra")
        short = name.replace("RPU::", "").split("<")[0]
        if not d and not l:
            continue
        if bool(d) != bool(l):
            has = (d or l)[0]
            if trivial(has["body"]):
                continue
            ctx.bad("pair", short, "%s:%d" % (has["file"], has["line"]), "only %s is defined" % has["n"])
            continue
        D, L = Side(facts, d[0], False), Side(facts, l[0], True)
        table[name] = (D, L)
        pairs += 1
        compare(ctx, facts, name, short, D, L, d[0], l[0])
    ctx.need(pairs >= 12, "only %d classes with saved state found" % pairs)
    bases_rule(ctx, facts, table)
    complete(ctx, facts, table)
    ctx.at_least("entry", 45)
    ctx.at_least("saved", 60)


def trivial(body):
    return body[0] == "block" and not body[1]


def compare(ctx, facts, name, short, D, L, d, l):
    dw, lw = "%s:%d" % (d["file"], d["line"]), "%s:%d" % (l["file"], l["line"])
    if trivial(d["body"]) and trivial(l["body"]):
        ctx.ok("pair", short, dw, "no state")
        return
    for key, mem in sorted(D.entries.items()):
        if key not in L.entries:
            ctx.bad("entry", "%s/%s" % (short, key), D.where[key], "the entry %r is saved but never restored" % key)
            continue
        got = L.entries[key]
        ok = bool(mem & got) or "?condition" in got
        ctx.check(ok, "entry", "%s/%s" % (short, key), L.where[key], "entry %r is saved from %s and restored into %s" % (
            key, sorted(mem) or "nothing", sorted(got) or "nothing"))
        if len({m for m in mem}) > 1 and not mem <= got and "?condition" not in got:
            pass
    for key in sorted(set(L.entries) - set(D.entries)):
        guarded = any(g == key for g, _ in L.guards)
        ctx.check(guarded, "entry", "%s/%s" % (short, key), L.where[key], "entry %r is restored only when present" % key if guarded else
                  "the entry %r is restored but never saved" % key)
    for key, m in sorted(D.sub.items()):
        ctx.check(L.sub.get(key) == m, "part", "%s/%s" % (short, key), D.where["sub " + key],
                  "the part %s saved under %r is restored into %s" % (m, key, L.sub.get(key)))
    for key in sorted(set(L.sub) - set(D.sub)):
        ctx.bad("part", "%s/%s" % (short, key), L.where["sub " + key], "the part %r is restored but never saved" % key)
    for key, where in L.guards:
        if key in D.sub and key not in D.entries:
            ctx.bad("guard", "%s/%s" % (short, key), where, "the presence test for %r never succeeds: the entries of a part carry a longer key" % key)
        else:
            ctx.ok("guard", "%s/%s" % (short, key), where, key)
    if D.entries or D.sub:
        ctx.check(D.prefixed, "prefix", short, dw, "entries are stored under the prefix of the object")
        ctx.check(L.prefixed, "prefix", short + "/load", lw, "entries are read under the prefix of the object")


def nontrivial_base(facts, name, which):
    """The nearest base class with a non-empty dumpExtra/loadExtra."""
    seen, todo = set(), list(facts.records.get(name, {}).get("bases", []))
    while todo:
        b = todo.pop(0)
        if b in seen:
            continue
        seen.add(b)
        fs = facts.of_class(b, which)
        if fs:
            if not trivial(fs[0]["body"]):
                return b
            continue
        todo += facts.records.get(b, {}).get("bases", [])
    return None


def bases_rule(ctx, facts, table):
    for name, (D, L) in sorted(table.items()):
        for side, which in ((D, "dumpExtra"), (L, "loadExtra")):
            b = nontrivial_base(facts, name, which)
            if b is None:
                continue
            short = name.replace("RPU::", "").split("<")[0]
            called = side.bases.get(b)
            if called is None:
                called = next((v for c, v in side.bases.items() if c and (c == b or b in facts.bases(c))), None)
            ctx.check(called is not None and called[1] in ("prefix", "<prefix>"), "base", "%s.%s" % (short, which), "%s:%d" % (side.f["file"], side.f["line"]),
                      "the state of the base %s is %s under the same prefix" % (b.replace("RPU::", ""), "saved" if side is D else "restored"))


def complete(ctx, facts, table):
    # classes whose objects are part of a saved tile: those with a dump, and classes derived from them
    names = set()
    for name in facts.records:
        chain = [name] + list(facts.bases(name))
        if any(c in table for c in chain):
            names.add(name)
    for name in sorted(names):
        rec = facts.records[name]
        short = name.replace("RPU::", "").split("<")[0]
        stored = set()
        if name in table:
            D = table[name][0]
            for v in D.entries.values():
                stored |= v
            stored |= {v for v in D.sub.values() if v}
        roots = {s.split(".")[0] for s in stored}
        dp = dp_members(facts, name)
        where = "%s:%d" % (rec.get("file", "src/rpucuda"), rec.get("line", 0) or 0)
        for fl in rec["fields"]:
            m, ty = fl[0], fl[1]
            if m in EXEMPT.get(short, {}) or (m == "initialized_" and ty == "bool"):
                ctx.count("members outside the saved state")
                continue
            if m in dp:
                ctx.ok("saved", "%s/%s" % (short, m), where, "handed out as a device parameter")
                continue
            if m not in roots:
                ctx.bad("saved", "%s/%s" % (short, m), where, "member %r (%s) is not part of the saved state" % (m, ty))
                continue
            if m in stored:
                ctx.ok("saved", "%s/%s" % (short, m), where, "stored")
                continue
            for leaf in leaves(facts, ty, m):
                ctx.check(leaf in stored or leaf in EXEMPT.get(short, {}), "saved", "%s/%s" % (short, leaf), where, "member %r is part of the saved state" % leaf)
