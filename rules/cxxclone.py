"""Copying of simulator objects: every member is copied from the same member, and nothing owned is shared.

For every record with a user-written copy constructor, move assignment or swap: each data member of the
record must be written from the same member of the source, and each base must be copied/swapped too.
"""
from sa.cdep import fields_of, is_base, peel, root, statements, walk
from sa.program import AnalysisBroken

# Members that carry no state of the object: scratch buffers and caches that are rebuilt on use, or members that a
# copy re-creates on purpose (confirmed by reading).  record (suffix) -> member -> reason
BUF = "scratch buffer, sized and filled by the operation that uses it"
RNGS = "a random generator: a copy draws its own numbers"
FLAG = "set by the allocation helper"
ALL = {
    "ChoppedTransferRPUDevice": {"x_signed_indices_tmp_": BUF, "tmp_count_lr_": BUF},
    "TransferRPUDevice": {"transfer_tmp_": BUF},
    "ForwardBackwardPassIOManaged": {m: BUF for m in (
        "tmp_in_values_", "tmp_out_values_", "tmp_c_values_", "current_buffer_values_", "in_buffer_values_", "out_buffer_values_",
        "pos_neg_buffer_values_", "neg_weights_")},
    "OneSidedRPUDevice": {m: BUF for m in (
        "refresh_p_tmp_", "refresh_m_tmp_", "refresh_p_vec_", "refresh_m_vec_", "coincidences_p_", "coincidences_m_")},
    "MixedPrecRPUDeviceBase": {"rw_rng_": RNGS, "rng_": RNGS, "up_ptr_": "identity of the update settings last seen, compared only"},
    "PulsedRPUDevice": {"write_noise_rng_": RNGS},
    "VectorRPUDevice": {"rw_rng_": RNGS},
    "SimpleRPUDevice": {"size_": FLAG},
    "RPUSimple": {"mutex_": "a lock belongs to its object"},
}
COPY = {
    "DenseBitLineMaker": {"containers_allocated_": FLAG, "rw_rng_": RNGS},
    "PulsedRPUDevice": {"containers_allocated_": FLAG},
    "PulsedRPUWeightUpdater": {"containers_allocated_": FLAG},
    "RNG": {"gauss_numbers_list_": RNGS},
    "RPUSimple": {"rng_": RNGS, "rw_rng_": RNGS, "weights_buffer_": "filled from the copied weights",
                  "delta_weights_extern_": "external storage stays with the original", "temp_x_vector_bias_": BUF, "temp_x_matrix_bias_": BUF,
                  "temp_tensor_": BUF, "wremapper_": "created on use", "wclipper_": "created on use", "fb_weight_modifier_": "created with fb_weights_",
                  "shared_weights_if_": "external storage stays with the original"},
}
COPY.update({c + "RPUDevice": {"initialized_": FLAG} for c in (
    "ConstantStep", "ExpStep", "HiddenStep", "LinearStep", "PiecewiseStep", "PowStep", "PowStepReference", "SoftBoundsReference")})
TRANSIENT = {"swap": ALL, "moveassign": ALL, "copyctor": {c: dict(ALL.get(c, {}), **COPY.get(c, {})) for c in set(ALL) | set(COPY)}}


def run(ctx, facts, select, rule="copy"):
    n = 0
    for name, rec in sorted(facts.records.items()):
        if not select(name):
            continue
        short = name.replace("RPU::", "")
        for kind in ("copyctor", "moveassign", "swap"):
            if kind == "swap":
                fs = [f for f in facts.funcs.values() if f["n"] == "swap" and len(f["params"]) == 2 and
                      f["params"][0][1].replace("RPU::", "") == short + " &"]
            else:
                fs = facts.of_class(name, kind=kind)
            for f in fs:
                n += check(ctx, facts, rec, short, kind, f, rule)
    return n


def callee_map(facts, cls, node):
    """Definitions of an own method called with source data."""
    c = node[2]
    return [g for g in facts.method(c.get("cls") or cls, c["n"]) if len(g["params"]) == len(node[3])]


def check(ctx, facts, rec, short, kind, f, rule):
    name = rec["name"]
    where = "%s:%d" % (f["file"], f["line"])
    params = [p[0] for p in f["params"]]
    if kind == "swap":
        dst, src = params[0], params[1]
    else:
        dst, src = "this", params[0]
    cov, bases, shallow, generic = {}, set(), {}, False
    # member initialisers
    for i in f.get("inits", []):
        if i[0] == "base":
            if mentions_var(i[2], src):
                bases.add(norm(i[1]))
        elif i[0] == "deleg":
            if whole(i[2], src):
                generic = True
            else:
                for g in fields_of(i[2], src):
                    cov.setdefault(g, where)
        elif i[0] == "mem":
            for g in fields_of(i[2], src):
                if g == i[1] or g.startswith("()"):
                    cov[i[1]] = where
                    if peel(i[2])[0] == "mem":
                        shallow[i[1]] = where
    locs = local_deps(f["body"], src)
    scan(facts, f["body"], dst, src, cov, bases, shallow, locs, kind, 0, name, f)
    # *this = std::move(other) / copy-and-swap
    for n in walk(f["body"]):
        if n and n[0] == "opcall" and n[1] == "=" and n[2] and is_base(n[2][0], dst if dst != "this" else "this") and peel(n[2][0])[0] != "mem":
            generic = True
    if generic:
        ctx.ok(rule, "%s.%s" % (short, kind), where, "delegates to the copy/move of the whole object")
        return 1
    fields = rec["fields"]
    skip = TRANSIENT[kind].get(short.split("<")[0], {})
    for fl in fields:
        m, ty = fl[0], fl[1]
        if m in skip or "*" in skip:
            ctx.count("transient members")
            continue
        if m not in cov:
            ctx.bad(rule, "%s.%s/%s" % (short, kind, m), where, "member %r is not taken over by the %s" % (m, kind))
            continue
        owning = "*" in ty or ty.startswith(("std::shared_ptr",))
        if kind == "copyctor" and owning and m in shallow and (short.split("<")[0], m) not in SHARED:
            ctx.bad(rule, "%s.%s/%s" % (short, kind, m), shallow[m], "the copy shares the storage of %r with the original" % m)
            continue
        ctx.ok(rule, "%s.%s/%s" % (short, kind, m), where, ty)
    for b in rec["bases"]:
        if not facts.records.get(b, {}).get("fields") and not any(facts.records.get(x, {}).get("fields") for x in facts.bases(b)):
            continue
        # handing over to an ancestor is as good when the classes in between have no members of their own
        got = any(norm(a) in bases and not any(facts.records.get(x, {}).get("fields") for x in [b] + list(facts.bases(b))
                                               if x != a and x not in facts.bases(a)) for a in [b] + list(facts.bases(b)))
        ctx.check(got, rule, "%s.%s/base" % (short, kind), where, "the base %s is taken over by the %s" % (norm(b), kind))
    return 1


# pointers to storage the object does not own
SHARED = {("RPUSimple", "rng_"), ("RPUSimple", "rw_rng_"), ("RPUSimple", "matrix_indices_"), ("ForwardBackwardPassIOManaged", "rng_"),
          ("PulsedRPUWeightUpdater", "rng_"), ("TransferRPUDevice", "last_weight_")}


def norm(t):
    return t.replace("RPU::", "").replace("const ", "").strip()


def mentions_var(e, v):
    return any(n == ["var", v] for n in walk(e))


def whole(e, v):
    e = peel(e)
    if e == ["var", v]:
        return True
    if e and e[0] in ("new", "init"):
        return any(whole(a, v) for a in e[2])
    if e and e[0] == "call":
        return any(whole(a, v) for a in e[2])
    return False


def local_deps(body, src):
    """Local variables whose value comes from members of the source."""
    deps = {}
    for _ in range(3):
        for st in statements(body):
            if st[0] == "decl" and st[3]:
                d = set(fields_of(st[3], src))
                for n in walk(st[3]):
                    if n and n[0] == "var" and n[1] in deps:
                        d |= deps[n[1]]
                if d:
                    deps.setdefault(st[1], set()).update(d)
            elif st[0] == "range":
                d = set(fields_of(st[2], src))
                if d:
                    deps.setdefault(st[1], set()).update(d)
            elif st[0] == "expr":
                for n in walk(st[1]):
                    if n and n[0] in ("asg", "aug"):
                        l, r = (n[1], n[2]) if n[0] == "asg" else (n[2], n[3])
                        rt = root(l)
                        if rt and rt[0] == "var" and rt[2] is None and rt[1] != src:
                            d = set(fields_of(r, src))
                            if d:
                                deps.setdefault(rt[1], set()).update(d)
                    if n and n[0] == "mcall" and peel(n[1])[0] == "var" and peel(n[1])[1] != src:
                        d = set()
                        for a in n[3]:
                            d |= fields_of(a, src)
                        if d:
                            deps.setdefault(peel(n[1])[1], set()).update(d)
    return deps


def reads(e, src, locs):
    d = set(fields_of(e, src))
    for n in walk(e):
        if n and n[0] == "var" and n[1] in locs:
            d |= locs[n[1]]
    return d


def dst_field(e, dst):
    r = root(e)
    if r is None:
        return None
    if dst == "this" and r[0] == "this":
        return r[1]
    if dst != "this" and r[0] == "var" and r[1] == dst:
        return r[2]
    return None


def accessor(facts, cls, e):
    """this.getX() whose body is `return member;`: the member."""
    for n in walk(e):
        if n and n[0] == "mcall" and is_base(n[1], "this") and isinstance(n[2], dict) and not n[3]:
            for g in facts.method(n[2].get("cls") or cls, n[2]["n"]):
                body = g["body"]
                while body and body[0] == "block" and len(body[1]) == 1:
                    body = body[1][0]
                if body and body[0] == "ret" and body[1]:
                    r = root(body[1])
                    if r and r[0] == "this" and r[1]:
                        return r[1]
    return None


def scan(facts, body, dst, src, cov, bases, shallow, locs, kind, depth, cls, func):
    alias = {}
    if dst == "this":
        for st in statements(body):
            if st[0] == "decl" and st[3] and "*" in st[2]:
                r = root(st[3])
                m = r[1] if r and r[0] == "this" and r[1] else accessor(facts, cls, st[3])
                if m:
                    alias[st[1]] = m
    for st in statements(body):
        if st[0] not in ("expr", "decl", "ret", "cond"):
            continue
        e = st[1] if st[0] != "decl" else st[3]
        if not e:
            continue
        line = st[2] if st[0] == "expr" else 0
        for n in walk(e):
            if not n:
                continue
            if n[0] == "asg" or (n[0] == "opcall" and n[1] == "=" and len(n[2]) == 2):
                l, r = (n[1], n[2]) if n[0] == "asg" else (n[2][0], n[2][1])
                m = dst_field(l, dst)
                if m:
                    rd = reads(r, src, locs)
                    if m in rd or any(x.startswith("()") for x in rd):
                        cov[m] = "%s:%d" % (func["file"], line)
                        rr = peel(r)
                        if rr[0] == "mem" and is_base(rr[1], src) and peel(l)[0] == "mem":
                            shallow[m] = "%s:%d" % (func["file"], line)
            elif n[0] in ("call", "mcall", "icall", "opcall"):
                args = n[2] if n[0] in ("call", "opcall", "icall") else n[3]
                callee = n[1] if n[0] == "call" else n[2] if n[0] == "mcall" else None
                if isinstance(callee, dict) and callee["n"] == "swap" and len(args) == 2:
                    a, b = peel(args[0]), peel(args[1])
                    if a[0] == "mem" and b[0] == "mem" and a[2] == b[2]:
                        if (is_base(a[1], dst) and is_base(b[1], src)) or (is_base(a[1], src) and is_base(b[1], dst)):
                            cov[a[2]] = "%s:%d" % (func["file"], line)
                        continue
                    # swap(static_cast<Base&>(a), static_cast<Base&>(b))
                    if a == ["var", dst] and b == ["var", src] or a == ["var", src] and b == ["var", dst]:
                        ty = callee.get("q", "")
                        for x in args:
                            if x[0] == "cast":
                                bases.add(norm(x[1]).replace(" &", ""))
                        continue
                if n[0] == "mcall" and isinstance(callee, dict) and callee["n"] == "swap" and len(args) == 1:
                    a, b = peel(n[1]), peel(args[0])
                    if a[0] == "mem" and b[0] == "mem" and a[2] == b[2]:
                        cov[a[2]] = "%s:%d" % (func["file"], line)
                        continue
                if n[0] == "mcall" and isinstance(callee, dict) and callee["n"] == "operator=" and is_base(n[1], "this"):
                    if any(mentions_var(a, src) for a in args):
                        bases.add(norm(callee.get("cls", "")))
                    continue
                ms = set()
                rd = set()
                parts = list(args) + ([n[1]] if n[0] == "mcall" else [])
                for a in parts:
                    m = dst_field(a, dst) if not is_base(a, dst) else None
                    if m is None and peel(a)[0] == "var":
                        m = alias.get(peel(a)[1])
                    if m:
                        ms.add(m)
                    rd |= reads(a, src, locs)
                for m in ms:
                    if m in rd or any(x.startswith("()") for x in rd):
                        cov[m] = "%s:%d" % (func["file"], line)
                # own method called with data of the source
                if n[0] == "mcall" and dst == "this" and is_base(n[1], "this") and depth < 3 and isinstance(callee, dict):
                    for g in callee_map(facts, cls, n):
                        l2 = {}
                        sub_src = None
                        for p, a in zip(g["params"], args):
                            d = reads(a, src, locs)
                            if d:
                                l2[p[0]] = d
                            if peel(a) == ["var", src]:
                                sub_src = p[0]
                        if l2 or sub_src:
                            l3 = dict(local_deps_params(g["body"], l2))
                            if sub_src:
                                l3.update(local_deps(g["body"], sub_src))
                            scan(facts, g["body"], "this", sub_src or "\0", cov, bases, shallow, l3, kind, depth + 1, cls, g)
                # a free helper given both objects
                if n[0] == "call" and depth < 3 and isinstance(callee, dict) and callee["n"] not in ("move", "forward"):
                    for g in facts.free(callee["n"]):
                        if len(g["params"]) != len(args):
                            continue
                        pd = [p[0] for p, a in zip(g["params"], args) if is_base(a, dst)]
                        ps = [p[0] for p, a in zip(g["params"], args) if peel(a) == ["var", src]]
                        if pd and ps:
                            scan(facts, g["body"], pd[0], ps[0], cov, bases, shallow, local_deps(g["body"], ps[0]), kind, depth + 1, cls, g)


def local_deps_params(body, l):
    deps = dict(l)
    for _ in range(2):
        for st in statements(body):
            if st[0] == "decl" and st[3]:
                d = set()
                for n in walk(st[3]):
                    if n and n[0] == "var" and n[1] in deps:
                        d |= deps[n[1]]
                if d:
                    deps.setdefault(st[1], set()).update(d)
    return deps
