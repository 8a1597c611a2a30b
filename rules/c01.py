"""C01: every configuration field reaches the simulator parameter of the same meaning."""
import ast
from sa import bindings as B
from sa.interp import Interp, mk_cmp
from sa.program import Class
from sa.terms import T, C, G, A, P, walk, show, is_const
from rules import cxxclone

TITLE = "Configuration fields reach the simulator parameter of the same meaning"

# binding attribute -> simulator member, where the two names differ (confirmed by reading the simulator's use of the member)
RENAMES = {
    "piecewise_down": "piecewise_down_vec", "piecewise_up": "piecewise_up_vec", "pow_up_down_dtod": "ps_gamma_up_down_dtod",
    "pow_up_down": "ps_gamma_up_down", "pow_gamma_dtod": "ps_gamma_dtod", "pow_gamma": "ps_gamma", "transfer_update": "transfer_up",
    "transfer_forward": "transfer_io", "refresh_update": "refresh_up", "refresh_forward": "refresh_io", "w_noise_std": "w_read_std",
    "t_0": "t0", "log_g0": "logG0", "ir_drop_g_ratio": "ir_drop_Gw_div_gmax", "desired_bl": "desired_BL", "fixed_bl": "fixed_BL",
    "update": "up", "backward_io": "b_io", "forward_io": "f_io"}
LS = {"reverse_offset": "ls_reverse_offset", "reverse_down": "ls_reverse_down", "reverse_up": "ls_reverse_up", "mult_noise": "ls_mult_noise",
      "mean_bound_reference": "ls_mean_bound_reference", "allow_increasing": "ls_allow_increasing_slope",
      "gamma_down_dtod": "ls_decrease_down_dtod", "gamma_up_dtod": "ls_decrease_up_dtod", "gamma_down": "ls_decrease_down",
      "gamma_up": "ls_decrease_up"}
ES = {"b": "es_b", "a": "es_a", "gamma_down": "es_gamma_down", "gamma_up": "es_gamma_up", "A_down": "es_A_down", "A_up": "es_A_up"}
PER_CLASS = {"LinearStepResistiveDeviceParameter": LS, "SoftBoundsResistiveDeviceParameter": LS, "ExpStepResistiveDeviceParameter": ES}
# python enumerators that exist only in the torch based tiles (the pulsed simulator has no such mode)
PY_ONLY_ENUM = {("BoundManagementType", "Shift"), ("AnalogMVType", "SplitMode"), ("AnalogMVType", "BitWise")}
ENUM_ALIAS = {("WeightModifierType", "None"): "Copy"}


def run(ctx):
    prog, facts = ctx.prog, ctx.cxx(rpu=True, bind=True)
    classes, enums = B.extract(facts)
    attrs_rule(ctx, facts, classes)
    enum_rule(ctx, prog, facts, enums)
    field_rule(ctx, prog, classes)
    conversion_rule(ctx, prog)
    as_bindings_rule(ctx, prog)
    create_rule(ctx, prog, classes)
    cxxclone.run(ctx, facts, lambda n: "MetaParameter" in n or n.split("::")[-1].startswith(("WeightModifierParameter", "DriftParameter")), rule="config-copy")
    ctx.at_least("binding-attr", 200)
    ctx.at_least("field-bound", 300)
    ctx.at_least("enum-value", 35)
    ctx.at_least("unit-devices", 8)
    ctx.assumptions.append("the accelerator (CUDA) bindings are not part of this build and are not analysed")


def attrs_rule(ctx, facts, classes):
    """Each binding attribute is the member of its own name (or its documented rename); no two share a member."""
    for name, c in sorted(classes.items()):
        fields = {}
        for rec in [c.cpp] + facts.bases(c.cpp):
            for f in facts.records.get(rec, {}).get("fields", []):
                fields.setdefault(f[0], rec)
        table = dict(RENAMES, **PER_CLASS.get(name, {}))
        used = {}
        for cc in reversed(B.chain(classes, name)):
            for a, (own, member, where) in cc.attrs.items():
                t = dict(RENAMES, **PER_CLASS.get(cc.name, {}))
                used.setdefault(member, {}).setdefault(t.get(a, a) if False else a, where)
        for a, (own, member, where) in sorted(c.attrs.items()):
            want = table.get(a, a)
            if member != want and (want in fields or member in {table.get(x, x) for x in c.attrs if x != a}):
                ctx.bad("binding-attr", "%s.%s" % (name, a), where, "the setting %r is bound to the simulator member %r instead of %r" % (a, member, want))
                continue
            twins = [x for x in used.get(member, {}) if x != a]
            if twins:
                ctx.bad("binding-attr", "%s.%s" % (name, a), where, "the settings %r and %r share the simulator member %r" % (a, twins[0], member))
                continue
            ctx.ok("binding-attr", "%s.%s" % (name, a), where, "%s -> %s::%s" % (a, own, member))


def py_enums(prog):
    return {c.name: c for c in prog.all_classes if "enum.Enum" in c.ext_bases() and c.module.name.endswith("parameters.enums")}


def enum_rule(ctx, prog, facts, enums):
    pys = py_enums(prog)
    for name, e in sorted(enums.items()):
        cpp = facts.enums.get(e.cpp)
        for val, member, where in e.values:
            want = ENUM_ALIAS.get((name, val), val)
            got = member.split("::")[-1]
            bad = got != want and (cpp is None or want in cpp["vals"] or got in [v for v, _, _ in e.values])
            ctx.check(not bad, "enum-value", "%s.%s" % (name, val), where, "choice %r selects the simulator's %r" % (val, got))
        py = pys.get(name)
        if py is None:
            continue
        seen = {}
        for m, (v, ann) in py.attrs.items():
            if not (isinstance(v, ast.Constant) and isinstance(v.value, str)):
                continue
            ok = v.value in [x for x, _, _ in e.values] or (name, v.value) in PY_ONLY_ENUM
            ctx.check(ok, "enum-member", "%s.%s" % (name, m), py.where(v), "enumerator %s has the binding value %r" % (m, v.value))
            norm = m.replace("_", "").lower()
            ctx.check(norm == v.value.lower() or (name, m) in (("WeightModifierType", "DOREFA"),), "enum-member", "%s.%s=" % (name, m), py.where(v),
                      "enumerator %s names the choice %r" % (m, v.value))
            if v.value in seen:
                ctx.bad("enum-member", "%s.%s" % (name, m), py.where(v), "%s and %s are the same choice" % (m, seen[v.value]))
            seen[v.value] = m


def class_const(cls, name):
    a = cls.lookup_attr(name)
    if a is None or a[1] is None:
        return None
    v = a[1]
    if isinstance(v, ast.Attribute):
        return v.attr
    try:
        return ast.literal_eval(v)
    except ValueError:
        return None


def literal(prog, module, name):
    m = prog.modules.get(module)
    v = m.globals.get(name) if m else None
    try:
        return ast.literal_eval(v) if v is not None else None
    except ValueError:
        return None


HELP = "aihwkit.simulator.parameters.helpers"


def is_tile_config(cls):
    return class_const(cls, "bindings_class") == "AnalogTileParameter"


def ann_class(prog, cls, ann):
    r = prog.resolve_expr(cls.module, ann) if ann is not None else None
    return r if isinstance(r, Class) else None


def field_rule(ctx, prog, classes):
    fmap = literal(prog, HELP, "FIELD_MAP") or {}
    always = literal(prog, HELP, "ALWAYS_INCLUDE") or []
    for want, to in (("forward", "forward_io"), ("backward", "backward_io")):
        ctx.check(fmap.get(want, to) == to, "field-map", want, HELP, "the %s settings are handed over as %s" % (want, fmap.get(want, want)))
    n = 0
    for cls in prog.all_classes:
        if not cls.is_dataclass:
            continue
        bname = class_const(cls, "bindings_class")
        if bname is None:
            continue
        n += 1
        if bname not in classes:
            ctx.bad("binding-class", cls.name, cls.where(), "the simulator has no parameter class %r" % (bname,))
            continue
        avail = {}
        for c in B.chain(classes, bname):
            for a, v in c.attrs.items():
                avail.setdefault(a, v)
        ignore = class_const(cls, "bindings_ignore") or []
        ctx.need(isinstance(ignore, (list, tuple)), "bindings_ignore of %s is not a literal" % cls.name)
        for f, (owner, val, ann) in cls.fields().items():
            if is_tile_config(cls):
                meta = ast.dump(val) if val is not None else ""
                if f not in always and "bindings_include" not in meta:
                    key = fmap.get(f, f)
                    ctx.check(key not in avail, "field-bound", "%s.%s" % (cls.name, f), owner.where(ann), "tile setting %r is excluded from the handover" % f)
                    continue
                key = fmap.get(f, f)
                ctx.check(key in avail, "field-bound", "%s.%s" % (cls.name, f), owner.where(ann), "tile setting %r is handed over as %r" % (f, key))
                continue
            if f in ("device", "unit_cell_devices"):
                continue
            if f in ignore:
                ctx.check(f not in avail, "field-bound", "%s.%s" % (cls.name, f), owner.where(ann),
                          "field %r is excluded from the handover and the simulator has no such setting" % f)
                continue
            sub = ann_class(prog, owner, ann)
            if sub is not None and sub.is_dataclass and sub.lookup_attr("bindings_class") is None:
                ctx.check(f not in avail, "field-bound", "%s.%s" % (cls.name, f), owner.where(ann), "nested settings without a simulator class")
                continue
            if f not in avail and cls.name == "SoftBoundsPmaxDevice":
                continue
            ctx.check(f in avail, "field-bound", "%s.%s" % (cls.name, f), owner.where(ann), "field %r is a setting of %s" % (f, bname))
            if sub is not None and sub.is_dataclass and f in avail:
                sb = class_const(sub, "bindings_class")
                rec = [c for c in B.chain(classes, bname) if f in c.attrs][0]
                ctx.check(sb in classes, "field-type", "%s.%s" % (cls.name, f), owner.where(ann), "nested settings %s map to %s" % (sub.name, sb))
    ctx.need(n >= 25, "only %d configuration classes with a simulator class found" % n)


def conversion_rule(ctx, prog):
    """parameters_to_bindings / tile_parameters_to_bindings set every field of the result from that field."""
    for name in ("parameters_to_bindings", "tile_parameters_to_bindings"):
        func = prog.func(HELP + "." + name)

        def stop(f, recv, args, kws):
            return f.name in ("get_bindings_class", "parameters_to_bindings", "tile_parameters_to_bindings")
        it = Interp(prog, stop=stop, merging=False, keep=lambda e: e.kind in ("call", "store", "raise", "loop", "endloop"))
        states = it.run(func)
        fmap = G(HELP + ".FIELD_MAP")
        n = 0
        for st in states:
            if st.status != "return":
                continue
            sets, field, getter = [], None, None
            for e in st.events:
                if e.kind == "call" and e.fn[0] == "g" and e.fn[1] == "setattr" and e.loops:
                    sets.append(e)
            loops = [e.value for e in st.events if e.kind == "loop"]
            # the loop(s) over the fields of the parameter object
            floops = [l for l in loops if any(x[0] == "call" and x[1][0] == "g" and x[1][1].endswith("fields") for x in walk(l))
                      or any(x[0] == "a" and x[2] == "__dict__" for x in walk(l))]
            skip = [l for l in st.conds if l[0] == "nonempty" and st.conds[l] is False]
            target = st.val
            if not floops:
                if skip or any(c[0] == "cmp" and c[1] == "is" and v for c, v in st.conds.items()):
                    continue
                ctx.bad("handover", name, func.where(), "a path returns without visiting the fields", st.path())
                continue
            names = field_names(st, floops)
            if not names:
                ctx.need(False, "the field variable of %s was not recognised" % name)
            n += 1
            good = None
            for e in sets:
                obj, key, val = (list(e.args) + [None] * 3)[:3]
                if obj is None or key is None:
                    continue
                nm = next((x for x in names if key is x or mapped(key, x)), None)
                if nm is None:
                    ctx.bad("handover", name, e.where(), "a field is stored under %s" % show(key), st.path())
                    continue
                if not is_result(obj):
                    continue
                good = (e, nm, val)
                vok = value_ok(val, nm, st)
                ctx.check(vok, "handover", name + ":" + ("enum" if "value" in show(val) else "nested" if "parameters_to_bindings" in show(val) else "plain"),
                          e.where(), "field value handed over is %s" % show(val), st.path())
            if good is None:
                why = skip_reason(st, names)
                if why is None and any(c[0] == "nonempty" and v is False for c, v in st.conds.items()):
                    continue
                ctx.check(why is not None, "handover-skip", name, func.where(), "field not handed over: %s" % (why or "no accepted reason"), st.path())
        ctx.need(n >= 3, "%s: %d paths" % (name, n))


def field_names(st, floops):
    """Terms that denote the name of the field being visited."""
    out = []
    for l in floops:
        for x in walk(l):
            if x[0] == "call" and x[1][0] == "g" and x[1][1].endswith("fields"):
                out.append(A(T("elem", x), "name"))
            if x[0] == "a" and x[2] == "__dict__":
                out.append(T("elem", x))
        out.append(A(T("elem", l), "name"))
        out.append(T("elem", l))
    return out


def mapped(key, nm):
    """FIELD_MAP.get(nm, nm) and its spelled-out variants."""
    if key[0] == "call" and show(key[1]).endswith("FIELD_MAP.get"):
        return len(key[2]) == 2 and key[2][0] is nm and key[2][1] is nm
    if key[0] == "i" and "FIELD_MAP" in show(key[1]):
        return key[2] is nm
    return False


def is_result(obj):
    return any(x[0] == "call" and "get_bindings_class" in show(x[1]) for x in walk(obj))


def value_ok(val, nm, st):
    base = None
    for x in walk(val):
        if x[0] == "call" and x[1][0] == "g" and x[1][1] == "getattr" and len(x[2]) >= 2 and x[2][1] is nm and x[2][0][0] == "p":
            base = x
    if base is None:
        return False
    while val[0] == "call" and val[1][0] == "g" and val[1][1] in ("list", "float", "tuple", "deepcopy", "copy.deepcopy") and len(val[2]) == 1:
        val = val[2][0]
    if val is base:
        return True
    if val[0] == "call" and val[1][0] == "fn" and val[1][1].endswith("parameters_to_bindings") and val[2] and val[2][0] is base:
        return True
    if val[0] == "call" and val[1][0] == "a" and val[1][2] == "as_bindings" and val[1][1] is base:
        return True
    # getattr(enum class of the same name, value.value)
    if val[0] == "call" and val[1][0] == "g" and val[1][1] == "getattr" and val[2][1] is A(base, "value"):
        cls = val[2][0]
        return any(x[0] == "a" and x[2] == "__name__" for x in walk(cls)) and any(x is base for x in walk(cls))
    return False


def skip_reason(st, names):
    for c, v in st.conds.items():
        s = show(c, 30)
        has = any(x is n or (n[0] == 'a' and x is n[1]) for n in names for x in walk(c))
        if not has:
            continue
        if v and c[0] == "cmp" and c[1] == "==" and is_const(c[3]) and c[3][1] in ("unit_cell_devices", "device"):
            return "the unit cell devices are handed over separately"
        if v and c[0] == "cmp" and c[1] == "in" and "bindings_ignore" in s:
            return "in bindings_ignore"
        if not v and "bindings_class" in s:
            return "nested settings without a simulator class"
        if v and c[0] == "cmp" and c[1] == "is" and "bindings_class" in s:
            return "nested settings without a simulator class"
        if not v and "bindings_include" in s:
            return "not marked bindings_include"
    return None


def as_bindings_rule(ctx, prog):
    done = set()
    for cls in prog.all_classes:
        f = cls.lookup("as_bindings")
        if f is None or not cls.is_dataclass or is_abstract(f) or f.qual in done:
            continue
        if cls.lookup_attr("bindings_class") is None:
            continue
        owner = f.cls
        done.add(f.qual)

        def stop(fn, recv, args, kws):
            return fn.name in ("parameters_to_bindings", "tile_parameters_to_bindings", "get_bindings_class") or (fn.name == "as_bindings" and fn is not f)
        it = Interp(prog, stop=stop, merging=False)
        states = it.run(f, owner)
        returns = [s for s in states if s.status == "return"]
        if not returns:
            continue
        fields = owner.fields()
        for st in returns:
            v = st.val
            ok = v[0] == "call" and v[1][0] == "fn" and v[1][1].endswith("parameters_to_bindings") and v[2]
            if not ok:
                ctx.bad("as-bindings", owner.name, f.where(), "returns %s, which is not the handover of its settings" % show(v), st.path())
                continue
            src = v[2][0]
            if src[0] == "self":
                ctx.ok("as-bindings", owner.name, f.where(), "hands over self")
                rewrites = [e for e in st.events if e.kind == "store" and e.target[0] == "self" and e.attr not in ("unit_cell_devices", "runtime")]
                for e in rewrites:
                    ctx.bad("as-bindings", owner.name, e.where(), "overwrites the user's setting %r" % e.attr, st.path())
            else:
                copied_rule(ctx, owner, f, st, src)
            if "unit_cell_devices" in fields:
                unit_rule(ctx, owner, f, st, v)
            if "device" in fields and not is_tile_config(owner):
                calls = [e for e in st.calls("set_device_parameter")]
                ok = len(calls) == 1 and calls[0].args and is_dev(calls[0].args[0], A(T("self"), "device"))
                ctx.check(ok, "unit-devices", owner.name, f.where(), "the device is handed over exactly once", st.path())
                for e in calls:
                    t = T("call", e.fn, e.args, e.kws)
                    ctx.check(st.conds.get(t) is True, "unit-accepted", owner.name, e.where(), "a rejected device raises", st.path())


def is_abstract(f):
    body = [s for s in f.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    return f.is_abstract or (len(body) == 1 and isinstance(body[0], ast.Raise)) or (len(body) == 1 and isinstance(body[0], ast.Return) and
                                                                                   isinstance(body[0].value, ast.Name))


def strip_copy(t):
    while t[0] == "call" and t[1][0] == "g" and t[1][1].split(".")[-1] in ("deepcopy", "copy") and t[2]:
        t = t[2][0]
    return t


def is_dev(t, dev):
    return t[0] == "call" and t[1][0] == "a" and t[1][2] == "as_bindings" and strip_copy(t[1][1]) is dev


def unit_rule(ctx, owner, f, st, result):
    L = A(T("self"), "unit_cell_devices")
    app = [e for e in st.calls("append_parameter")]
    seq = []
    for e in app:
        obj = e.fn[1] if e.fn[0] == "a" else None
        arg = e.args[0] if e.args else e.arg(None, "parameter")
        if obj is not result or arg is None or not (arg[0] == "call" and arg[1][0] == "a" and arg[1][2] == "as_bindings"):
            ctx.bad("unit-devices", owner.name, e.where(), "appends %s" % show(arg) if arg else "appends nothing", st.path())
            return
        dev = strip_copy(arg[1][1])
        pos = None
        if dev[0] == "i" and dev[1] is L and is_const(dev[2]):
            pos = dev[2][1]
        elif dev[0] == "i" and dev[1][0] == "i" and dev[1][1] is L and dev[1][2][0] == "sl" and is_const(dev[2]):
            pos = dev[2][1]
        elif dev[0] == "elem" and (dev[1] is L or (dev[1][0] == "i" and dev[1][1] is L and dev[1][2][0] == "sl" and
                                                   dev[1][2][1] is C(None) and dev[1][2][2] is C(2) and dev[1][2][3] is C(None))):
            pos = "each" if dev[1] in e.loops else None
        seq.append(pos)
        t = T("call", e.fn, e.args, e.kws)
        ctx.check(st.conds.get(t) is True, "unit-accepted", owner.name, e.where(), "a rejected device raises", st.path())
    one = any(c[0] == "cmp" and c[1] == "==" and c[3] is C(1) and v and "len" in show(c) for c, v in st.conds.items())
    empty = any(c[0] == "nonempty" and v is False for c, v in st.conds.items())
    ok = (seq == ["each"] or (not seq and empty) or seq == [0, 1] or (seq == [0, 0] and one) or (seq == [0] and empty))
    ctx.check(ok, "unit-devices", owner.name, f.where(), "the unit cell devices handed over are %s" % (seq,), st.path())


def copied_rule(ctx, owner, f, st, src):
    """A device that hands over a converted stand-in: fields of the stand-in come from self."""
    stores = [e for e in st.events if e.kind == "store" and e.target is src]
    loops = [e for e in st.calls("setattr") if e.loops and e.args and e.args[0] is src]
    for e in loops:
        key, val = e.args[1], e.args[2]
        ok = val[0] == "call" and val[1] is G("getattr") and val[2][0][0] == "self" and val[2][1] is key
        ctx.check(ok, "as-bindings", owner.name, e.where(), "copies %s from %s" % (show(key), show(val)), st.path())
    excl = {c[3][1] for c, v in st.conds.items() if not v and c[0] == "cmp" and c[1] == "==" and is_const(c[3])}
    hasloop = bool(loops)
    zero = any(c[0] == "nonempty" and not v for c, v in st.conds.items())
    if not hasloop and zero:
        return
    skipped = [c[3][1] for c, v in st.conds.items() if v and c[0] == "cmp" and c[1] == "==" and is_const(c[3])]
    if skipped and not hasloop:
        # the branch for a field that is translated instead of copied
        text = " ".join(show(e.value, 30) for e in stores)
        for k in skipped:
            ctx.check("self.%s" % k in text, "as-bindings", "%s.%s" % (owner.name, k), f.where(), "field %r enters the translated settings" % k, st.path())
        return
    ctx.check(hasloop, "as-bindings", owner.name, f.where(), "all other fields are copied to the stand-in", st.path())


def create_rule(ctx, prog, classes):
    """The simulator tile is created from the settings of the configuration it was given."""
    n = 0
    for cls in prog.all_classes:
        f = cls.methods.get("_create_simulator_tile")
        if f is None:
            continue
        if not any(isinstance(x, ast.Attribute) and x.attr == "create_array" or isinstance(x, ast.Attribute) and x.attr == "FloatingPointTile"
                   for x in ast.walk(f.node)) and "create_array" not in cls.module.src:
            continue

        def stop(fn, recv, args, kws):
            return fn.name in ("as_bindings", "get_data_type", "parameters_to_bindings")
        it = Interp(prog, stop=stop, param_types=False)
        for st in it.run(f, cls):
            if st.status != "return":
                continue
            made = [e for e in st.events if e.kind == "call" and e.callee() == "create_array"]
            if not made:
                continue
            n += 1
            rc = P("rpu_config")
            ok = False
            for e in made:
                meta = e.fn[1]
                args = list(e.args) + [v for _, v in e.kws]
                if len(args) == 3:
                    m = meta[0] == "call" and meta[1] is A(rc, "as_bindings")
                    d = args[2][0] == "call" and args[2][1] is A(A(rc, "device"), "as_bindings")
                    ok = m and d and args[0] is P("x_size") and args[1] is P("d_size")
                elif len(args) == 2:
                    m = meta[0] == "call" and meta[1] is A(A(rc, "device"), "as_bindings")
                    ok = m and args[0] is P("x_size") and args[1] is P("d_size")
            ctx.check(ok, "create-tile", cls.name, made[0].where(), "the simulator tile is created from this configuration", st.path())
    ctx.need(n >= 3, "only %d simulator tile constructors found" % n)
