"""mkvalues.py PREFIX ...: print class attributes and module constants of the modules below the prefixes as reference text, to be reviewed by hand."""
import ast, os, sys
sys.path.insert(0, __file__.rsplit("/", 2)[0])
from sa.program import Program
P = Program(os.environ.get("VERIF_REPO", "/repo") + "/src")
for m in sorted(P.modules.values(), key=lambda m: m.name):
    if not m.name.startswith(tuple(sys.argv[1:])):
        continue
    for k, v in m.globals.items():
        if v is not None and not k.startswith("__"):
            print('\n\nvalue("%s.%s", %s)' % (m.name, k, ast.unparse(v)))
    for c in m.classes.values():
        lines = ["    %s = %s" % (k, ast.unparse(v)) for k, (v, a) in c.attrs.items() if v is not None and not k.startswith("__")]
        if lines:
            print('\n\n@of("%s")\nclass %s:\n%s' % (c.qual, c.name, "\n".join(lines)))
