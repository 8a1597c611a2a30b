"""mkspec.py QUAL[:name,name..] ...: print functions of the repository as reference text (docstrings and annotations dropped), to be reviewed and edited by hand."""
import ast, sys
sys.path.insert(0, __file__.rsplit("/", 2)[0])
from sa.program import Program
import os
prog = Program(os.environ.get("VERIF_REPO", "/repo") + "/src")


def clean(f):
    n = ast.parse(ast.unparse(f)).body[0]
    for x in ast.walk(n):
        b = getattr(x, "body", None)
        if isinstance(b, list) and b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) and isinstance(b[0].value.value, str):
            x.body = b[1:] or [ast.Pass()]
        if isinstance(x, ast.arg) and x.arg != "":
            pass
    n.returns = None
    n.decorator_list = [d for d in n.decorator_list if ast.unparse(d) in ("property", "staticmethod", "classmethod") or "setter" in ast.unparse(d)]
    return ast.unparse(n)


for a in sys.argv[1:]:
    q, _, names = a.partition(":")
    c = prog.find_cls(q)
    if c is None:
        m = prog.modules[q]
        for n in (names.split(",") if names else m.functions):
            print('\n\n@of("%s.%s")' % (m.name, n))
            print(clean(m.functions[n].node))
        continue
    print('\n\n@of("%s")\nclass %s:' % (c.qual, c.name))
    fs = [(n, f) for n, f in list(c.methods.items()) + [(n + ".setter", f) for n, f in c.setters.items()] if not f.is_abstract]
    for n, f in fs:
        if names and n not in names.split(","):
            continue
        if n in ("get_brief_info", "extra_repr", "__repr__", "__str__"):
            continue
        print("\n".join("    " + l for l in clean(f.node).split("\n")) + "\n")
