"""C06: saving, loading and copying a tile.  Reference agreement plus: what changes in a torch simulator tile is part of its state."""
import ast
from rules.agree import agree
from rules.tables import AGREE

TITLE = "Saving, loading and copying an analog tile restores it"


def run(ctx):
    agree(ctx, AGREE["C06"])
    module_state(ctx)


def self_attr(e):
    return e.attr if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == "self" else None


def stored(node):
    """(attribute, statement, value or None) of every assignment to an attribute of self."""
    for st in ast.walk(node):
        if isinstance(st, ast.Assign):
            for t in st.targets:
                for x in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                    if self_attr(x):
                        yield x.attr, st, st.value
        elif isinstance(st, ast.AugAssign) and self_attr(st.target):
            yield st.target.attr, st, None
        elif isinstance(st, ast.AnnAssign) and st.value is not None and self_attr(st.target):
            yield st.target.attr, st, st.value


def module_state(ctx):
    """A simulator tile that is a torch module is saved by the torch state dict when its wrapper leaves out the analog state: a plain
    attribute that later steps change in terms of its old value, or that a setter takes over from its argument, has to be saved as well."""
    prog = ctx.prog
    for cls in prog.all_classes:
        wrapper = [f for f in cls.methods.values() if f.name == "_create_simulator_tile"]
        init = cls.methods.get("__init__")
        if not wrapper or init is None:
            continue
        without = any(isinstance(n, ast.keyword) and n.arg == "ignore_analog_state" and isinstance(n.value, ast.Constant) and n.value.value is True
                      for n in ast.walk(init.node))
        sims = [prog.resolve_expr(cls.module, n.func) for n in ast.walk(wrapper[0].node) if isinstance(n, ast.Call)]
        for sim in [s for s in sims if hasattr(s, "mro") and "torch.nn.Module" in s.ext_bases()]:
            if not without:
                ctx.ok("module-state", cls.qual, sim.where(), "the analog state is saved")
                continue
            saved, first, changed = set(), set(), {}
            for c in sim.mro():
                for f in c.methods.values():
                    if f.name in ("dump_extra", "get_extra_state"):
                        if f.name == "get_extra_state":
                            saved |= {n.attr for n in ast.walk(f.node) if isinstance(n, ast.Attribute)}
                        continue
                    for n in ast.walk(f.node):
                        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("register_buffer", "register_parameter") \
                                and n.args and isinstance(n.args[0], ast.Constant):
                            saved.add(n.args[0].value)
                    params = set(f.all_params())
                    for name, st, value in stored(f.node):
                        if f.name == "__init__":
                            first.add(name)
                            if isinstance(value, ast.Call) and ast.unparse(value.func).split(".")[-1] == "Parameter":
                                saved.add(name)
                            continue
                        own = value is None or any(self_attr(n) == name for n in ast.walk(value))
                        taken = f.name.startswith("set_") and isinstance(value, ast.Name) and value.id in params
                        if own or taken:
                            changed.setdefault(name, "%s:%d" % (f.module.rel, st.lineno))
            for name in sorted(first & set(changed)):
                ctx.check(name in saved, "module-state", "%s.%s" % (sim.qual.replace("aihwkit.", ""), name), changed[name],
                          "%s changes after construction but is not part of the state dict of %s" % (name, cls.name))
