"""mkspec_cxx.py: write the reference text of the simulator (specs_cxx/) from the translation of its current sources, to be reviewed by hand."""
import ast, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from sa import cxx, cxx2py

SKIP = ("print", "printf", "printToStream", "dtor", "swap", "copyctor", "movector", "copyassign", "moveassign", "load", "dump")


def main():
    facts = cxx.load(cxx.rpu_units())
    prog = cxx2py.CxxProgram(facts)
    out = V + "/specs_cxx"
    os.makedirs(out, exist_ok=True)
    with open(out + "/names.json", "w") as fh:
        json.dump(prog.names.table, fh, indent=0, sort_keys=True)
    n = 0
    for m in sorted(prog.modules.values(), key=lambda m: m.name):
        if m.name == "rpucuda.enums":
            continue
        txt = []
        for name, f in sorted(m.functions.items()):
            txt.append('@of("%s.%s")\n%s\n' % (m.name, name, ast.unparse(f.node)))
            n += 1
        for c in sorted(m.classes.values(), key=lambda c: c.name):
            body = ["    %s = %s" % (k, ast.unparse(v[0])) for k, v in c.attrs.items()]
            for k, f in c.methods.items():
                if trivial(f):
                    continue
                body.append("\n".join("    " + l for l in ast.unparse(f.node).split("\n")) + "\n")
                n += 1
            if body:
                txt.append('@of("%s")\nclass %s:\n%s\n' % (c.qual, c.name, "\n".join(body)))
        if txt:
            with open(out + "/" + m.name.split(".")[-1] + ".py", "w") as fh:
                fh.write("\n\n".join(txt))
    print(n)


def trivial(f):
    return f.name.split("__")[0] in SKIP


if __name__ == "__main__":
    main()
