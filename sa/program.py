"""Program model of the Python sources: modules, imports, classes, C3 MRO, dataclass fields.

Nothing in here imports or executes the analysed code: everything is derived from the syntax trees
of the current working tree.
"""
import ast
import os
import hashlib


class AnalysisBroken(Exception):
    """An anchor of the analysis is gone: neither a pass nor a violation."""


class Func:
    def __init__(self, name, node, module, cls=None, outer=None):
        self.name, self.node, self.module, self.cls, self.outer = name, node, module, cls, outer
        self.decorators = [decorator_name(d) for d in node.decorator_list]

    @property
    def qual(self):
        return (self.cls.qual if self.cls else self.module.name) + "." + self.name

    @property
    def is_static(self):
        return "staticmethod" in self.decorators

    @property
    def is_classmethod(self):
        return "classmethod" in self.decorators

    @property
    def is_property(self):
        return "property" in self.decorators or "cached_property" in self.decorators

    @property
    def is_abstract(self):
        return "abstractmethod" in self.decorators

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    def all_params(self):
        a = self.node.args
        return self.params() + [x.arg for x in a.kwonlyargs]

    def default(self, name):
        """AST of the default value of a parameter (None when it has none)."""
        a = self.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        if name in pos:
            i = pos.index(name) - (len(pos) - len(a.defaults))
            return a.defaults[i] if i >= 0 else None
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg == name:
                return d
        return None

    def where(self, node=None):
        return "%s:%d" % (self.module.rel, (node or self.node).lineno)

    def __repr__(self):
        return "<Func %s>" % self.qual


def decorator_name(d):
    if isinstance(d, ast.Call):
        d = d.func
    parts = []
    while isinstance(d, ast.Attribute):
        parts.append(d.attr)
        d = d.value
    if isinstance(d, ast.Name):
        parts.append(d.id)
    return ".".join(reversed(parts))


class Class:
    def __init__(self, name, node, module):
        self.name, self.node, self.module = name, node, module
        self.qual = module.name + "." + name
        self.methods = {}      # name -> Func (getter for properties)
        self.setters = {}      # name -> Func
        self.attrs = {}        # class level assignments: name -> (value ast or None, annotation or None)
        self.base_names = []
        self.bases = []        # resolved Class or dotted string
        self.decorators = [decorator_name(d) for d in node.decorator_list]
        self._mro = None

    @property
    def is_dataclass(self):
        return any(d.split(".")[-1] == "dataclass" for d in self.decorators)

    def mro(self):
        if self._mro is None:
            self._mro = c3(self)
        return self._mro

    def ext_bases(self):
        """Names of bases outside of the repository (in any ancestor)."""
        return {b for c in self.mro() for b in c.bases if isinstance(b, str)}

    def lookup(self, name):
        for c in self.mro():
            if name in c.methods:
                return c.methods[name]
        return None

    def lookup_after(self, cls, name):
        mro = self.mro()
        i = mro.index(cls) + 1 if cls in mro else 0
        for c in mro[i:]:
            if name in c.methods:
                return c.methods[name]
        return None

    def lookup_setter(self, name):
        for c in self.mro():
            if name in c.setters:
                return c.setters[name]
            if name in c.methods or name in c.attrs:
                return None
        return None

    def lookup_attr(self, name):
        """Class level assignment: (class, value, annotation)."""
        for c in self.mro():
            if name in c.attrs:
                return (c,) + c.attrs[name]
        return None

    def is_sub(self, other):
        name = other if isinstance(other, str) else other.qual
        return any(c.qual == name for c in self.mro()) or name in self.ext_bases()

    def fields(self):
        """Dataclass fields in definition order along the MRO: name -> (class, value, annotation)."""
        out = {}
        for c in reversed(self.mro()):
            if not c.is_dataclass:
                continue
            for n, (v, ann) in c.attrs.items():
                if ann is None:
                    if n in out:
                        out[n] = (c, v, out[n][2])
                    continue
                if isinstance(ann, ast.Subscript) and decorator_name(ann.value).split(".")[-1] == "ClassVar":
                    continue
                out[n] = (c, v, ann)
        return out

    def where(self, node=None):
        return "%s:%d" % (self.module.rel, (node or self.node).lineno)

    def __repr__(self):
        return "<Class %s>" % self.qual


def c3(cls):
    def merge(seqs):
        res = []
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                return res
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                h = seqs[0][0]
            res.append(h)
            seqs = [[x for x in s if x is not h] for s in seqs]
    bases = [b for b in cls.bases if isinstance(b, Class)]
    return [cls] + merge([list(b.mro()) for b in bases] + [list(bases)])


class Module:
    def __init__(self, name, path, rel, tree, src, is_pkg):
        self.name, self.path, self.rel, self.tree, self.src, self.is_pkg = name, path, rel, tree, src, is_pkg
        self.classes, self.functions, self.imports, self.globals, self.star = {}, {}, {}, {}, []

    def __repr__(self):
        return "<Module %s>" % self.name


class Program:
    def __init__(self, root="/repo/src", package="aihwkit", repo="/repo"):
        self.modules = {}
        self._cls_memo, self._func_memo = {}, {}
        self.root = root
        digest = hashlib.sha256()
        for dirpath, dirs, files in sorted(os.walk(os.path.join(root, package))):
            dirs.sort()
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                path = os.path.join(dirpath, f)
                with open(path, encoding="utf-8") as fh:
                    src = fh.read()
                digest.update(src.encode())
                rel = os.path.relpath(path, root)[:-3].replace(os.sep, ".")
                is_pkg = rel.endswith(".__init__")
                if is_pkg:
                    rel = rel[: -len(".__init__")]
                try:
                    tree = ast.parse(src, path)
                except SyntaxError as exc:
                    raise AnalysisBroken("cannot parse %s: %s" % (path, exc))
                self.modules[rel] = Module(rel, path, os.path.relpath(path, repo), tree, src, is_pkg)
        self.digest = digest.hexdigest()
        for m in self.modules.values():
            self._scan(m)
        for m in self.modules.values():
            for c in m.classes.values():
                for b in c.node.bases:
                    r = self.resolve_expr(m, b)
                    if isinstance(r, Class):
                        c.bases.append(r)
                    elif isinstance(r, str):
                        c.bases.append(r)
                    else:
                        c.bases.append(ast.unparse(b))
        self.all_classes = [c for m in self.modules.values() for c in m.classes.values()]
        self.all_funcs = []
        for m in self.modules.values():
            self.all_funcs += list(m.functions.values())
            for c in m.classes.values():
                self.all_funcs += list(c.methods.values()) + list(c.setters.values())

    # ---- scanning
    def _scan(self, m):
        def scan_body(body):
            for st in body:
                if isinstance(st, ast.ImportFrom):
                    base = st.module or ""
                    if st.level:
                        parts = m.name.split(".")
                        if not m.is_pkg:
                            parts = parts[:-1]
                        parts = parts[: len(parts) - (st.level - 1)]
                        base = ".".join(parts + ([st.module] if st.module else []))
                    for a in st.names:
                        if a.name == "*":
                            m.star.append(base)
                        else:
                            m.imports[a.asname or a.name] = (base, a.name)
                elif isinstance(st, ast.Import):
                    for a in st.names:
                        if a.asname:
                            m.imports[a.asname] = (a.name, None)
                        else:
                            top = a.name.split(".")[0]
                            m.imports[top] = (top, None)
                elif isinstance(st, ast.ClassDef):
                    c = Class(st.name, st, m)
                    m.classes[st.name] = c
                    for x in st.body:
                        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                            f = Func(x.name, x, m, c)
                            if any(d.endswith(".setter") for d in f.decorators):
                                c.setters[x.name] = f
                            elif any(d.endswith(".deleter") for d in f.decorators):
                                pass
                            else:
                                c.methods[x.name] = f
                        elif isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name):
                            c.attrs[x.target.id] = (x.value, x.annotation)
                        elif isinstance(x, ast.Assign):
                            for t in x.targets:
                                if isinstance(t, ast.Name):
                                    c.attrs[t.id] = (x.value, None)
                elif isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    m.functions[st.name] = Func(st.name, st, m)
                elif isinstance(st, ast.Assign):
                    for t in st.targets:
                        if isinstance(t, ast.Name):
                            m.globals[t.id] = st.value
                elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value:
                    m.globals[st.target.id] = st.value
                elif isinstance(st, (ast.If,)):
                    scan_body(st.body)
                    scan_body(st.orelse)
                elif isinstance(st, ast.Try):
                    scan_body(st.body)
                    for h in st.handlers:
                        scan_body(h.body)
        scan_body(m.tree.body)

    # ---- resolution
    def resolve(self, m, name, seen=None):
        """Entity a module-level name refers to: Class, Func, Module, ('global', Module, name) or dotted str."""
        seen = seen or set()
        if (m.name, name) in seen:
            return None
        seen.add((m.name, name))
        if name in m.classes:
            return m.classes[name]
        if name in m.functions:
            return m.functions[name]
        if name in m.globals:
            return ("global", m, name)
        if name in m.imports:
            base, attr = m.imports[name]
            if attr is None:
                return self.modules.get(base, base)
            if base in self.modules:
                bm = self.modules[base]
                sub = base + "." + attr
                r = self.resolve(bm, attr, seen)
                if r is not None:
                    return r
                if sub in self.modules:
                    return self.modules[sub]
            return base + "." + attr
        for base in m.star:
            if base in self.modules:
                r = self.resolve(self.modules[base], name, seen)
                if r is not None:
                    return r
        return None

    def resolve_expr(self, m, e):
        if isinstance(e, ast.Name):
            return self.resolve(m, e.id)
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(m, e.value)
            if isinstance(b, Module):
                r = self.resolve(b, e.attr)
                if r is None and b.name + "." + e.attr in self.modules:
                    return self.modules[b.name + "." + e.attr]
                return r if r is not None else b.name + "." + e.attr
            if isinstance(b, str):
                return b + "." + e.attr
        if isinstance(e, ast.Subscript):
            return self.resolve_expr(m, e.value)
        if isinstance(e, ast.Constant) and isinstance(e.value, str) and e.value.isidentifier():
            return self.resolve(m, e.value)
        return None

    def cls(self, name):
        """Class by (suffix of) qualified name; AnalysisBroken if absent."""
        c = self.find_cls(name)
        if c is None:
            raise AnalysisBroken("class %s not found" % name)
        return c

    def find_cls(self, name):
        if name not in self._cls_memo:
            res = [c for c in self.all_classes if c.qual == name or c.qual.endswith("." + name)]
            self._cls_memo[name] = res[0] if res else None
        return self._cls_memo[name]

    def find_func(self, name):
        if name not in self._func_memo:
            res = [f for f in self.all_funcs if f.qual == name] or [f for f in self.all_funcs if f.qual.endswith("." + name)]
            res = [f for f in res if not any(d.endswith(".setter") for d in f.decorators)] or res
            self._func_memo[name] = res[0] if res else None
        return self._func_memo[name]

    def func(self, name):
        res = self.find_func(name)
        if res is None:
            raise AnalysisBroken("function %s not found" % name)
        return res

    def subclasses(self, cls, strict=False):
        return [c for c in self.all_classes if c.is_sub(cls) and not (strict and c is cls)]
