"""The pybind11 binding declarations (classes, attributes, enums) of the simulator."""
from .program import AnalysisBroken


def walk(x):
    stack = [x]
    while stack:
        y = stack.pop()
        if isinstance(y, list):
            yield y
            stack.extend(z for z in y if isinstance(z, (list, dict)))
        elif isinstance(y, dict):
            stack.extend(z for z in y.values() if isinstance(z, (list, dict)))


def first_str(x):
    if isinstance(x, list):
        if len(x) == 2 and x[0] == "str":
            return x[1]
        for y in x:
            r = first_str(y)
            if r is not None:
                return r
    return None


def tmpl_args(t):
    """Top-level template arguments of a type name."""
    i = t.index("<")
    out, depth, cur = [], 0, ""
    for ch in t[i + 1:t.rindex(">")]:
        if ch == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
            continue
        depth += ch == "<"
        depth -= ch == ">"
        cur += ch
    out.append(cur.strip())
    return out


class BClass:
    def __init__(self, name, cpp, bases, where):
        self.name, self.cpp, self.bases, self.where = name, cpp, bases, where
        self.attrs = {}      # attr -> (owner record, member, where)
        self.defs = {}       # method -> list of (lambda/member expr, line)


class BEnum:
    def __init__(self, name, cpp, where):
        self.name, self.cpp, self.where, self.values = name, cpp, where, []


def extract(facts):
    classes, enums = {}, {}
    for f in facts.funcs.values():
        if "rpu_base_src" not in f["file"]:
            continue
        for node in walk(f["body"]):
            # chain of .def(...) calls ends in the construction of class_/enum_
            if node and node[0] == "mcall" and isinstance(node[2], dict) and (node[2].get("cls", "").startswith("pybind11::class_<")
                                                                               or node[2].get("cls", "").startswith("pybind11::enum_<")):
                base = node
                while base[0] == "mcall":
                    base = base[1]
                if base[0] != "new" and base[0] != "cast" and base[0] != "init":
                    continue
                key = None
                cls = node[2]["cls"]
                name = first_str(base)
                if name is None:
                    continue
                where = "%s:%d" % (f["file"], node[5])
                if "enum_<" in cls:
                    e = enums.setdefault(name, BEnum(name, tmpl_args(cls)[0], where))
                    if node[2]["n"] == "value":
                        v = node[3][1]
                        item = (node[3][0][1], v[1] if v[0] == "enum" else str(v), where)
                        if item not in e.values:
                            e.values.append(item)
                else:
                    ta = tmpl_args(cls)
                    key = (name, ta[0])
                    if name not in classes or (classes[name].cpp != ta[0] and "float" in ta[0]):
                        classes[name] = BClass(name, ta[0], [x for x in ta[1:]], where)
                    c = classes[name]
                    if c.cpp != ta[0]:
                        continue
                    n = node[2]["n"]
                    if n in ("def_readwrite", "def_readonly"):
                        m = node[3][1]
                        while m and m[0] in ("un", "cast"):
                            m = m[2]
                        if m[0] == "fieldref":
                            c.attrs[node[3][0][1]] = (m[1], m[2], where)
                    elif n in ("def", "def_property_readonly", "def_property", "def_static") and node[3] and first_str(node[3][0]):
                        c.defs.setdefault(first_str(node[3][0]), []).append((node[3][1:], node[5], n, f["file"]))
    if len(classes) < 20 or len(enums) < 8:
        raise AnalysisBroken("bindings not recognised: %d classes, %d enums" % (len(classes), len(enums)))
    return classes, enums


def chain(classes, name):
    """Binding class and its binding ancestors."""
    bycpp = {strip(c.cpp): c for c in classes.values()}
    out, todo = [], [classes[name]]
    while todo:
        c = todo.pop(0)
        out.append(c)
        for b in c.bases:
            p = bycpp.get(strip(b))
            if p is not None and p not in out:
                todo.append(p)
    return out


def strip(t):
    return t.replace("RPU::", "").replace(" ", "")
