"""Flow-insensitive write/read effects of C++ bodies (from cxxfacts): which members are written from what."""
from .bindings import walk

CONST_SAFE = {"size", "begin", "end", "empty", "data", "get", "cbegin", "cend"}


def fields_of(e, base, out=None):
    """Members of `base` ('this' or a variable name) mentioned in expression e."""
    out = set() if out is None else out
    for n in walk(e):
        if n and n[0] == "mem":
            if is_base(n[1], base):
                out.add(n[2])
        if n and n[0] in ("mcall", "method") and is_base(n[1], base):
            c = n[2]
            if isinstance(c, dict):
                out.add("()" + c["n"])
    return out


def is_base(e, base):
    e = peel(e)
    if base == "this":
        return e == ["this"] or (e[0] == "un" and e[1] == "*" and peel(e[2]) == ["this"])
    return e == ["var", base] or (e[0] == "un" and e[1] == "*" and peel(e[2]) == ["var", base])


def peel(e):
    while e and e[0] == "cast":
        e = e[2]
    return e


def root(e):
    """('this', field) / ('var', name, field or None) at the root of an lvalue expression."""
    e = peel(e)
    last = None
    while True:
        e = peel(e)
        k = e[0]
        if k == "mem":
            b = peel(e[1])
            if b == ["this"]:
                return ("this", e[2])
            last = e[2]
            e = e[1]
        elif k == "idx":
            e = e[1]
        elif k == "un":
            e = e[2]
        elif k == "opcall":
            if not e[2]:
                return None
            e = e[2][0]
        elif k == "bin":
            e = e[2]
        elif k == "mcall":
            e = e[1]
        elif k == "call":
            # getters by reference, std::get etc.: first argument
            if not e[2]:
                return None
            e = e[2][0]
        elif k == "var":
            return ("var", e[1], last)
        elif k == "this":
            return ("this", None)
        else:
            return None


def statements(s):
    """Leaf statements (expressions, declarations, returns) of a body, with loop/if conditions included."""
    stack = [s]
    while stack:
        x = stack.pop()
        if not isinstance(x, list) or not x:
            continue
        k = x[0]
        if k == "block":
            stack.extend(reversed(x[1]))
        elif k == "if":
            yield ("cond", x[1], x[4] if len(x) > 4 else 0)
            stack.extend([x[3], x[2]])
        elif k == "for":
            stack.extend([x[4], ["expr", x[3], x[5]] if x[3] else ["nop"], x[1]])
            yield ("cond", x[2], x[5])
        elif k == "forrange":
            yield ("range", x[1], x[3], x[5])
            stack.append(x[4])
        elif k == "while" or k == "do":
            yield ("cond", x[1], x[3])
            stack.append(x[2])
        elif k == "switch":
            yield ("cond", x[1], x[3])
            stack.append(x[2])
        elif k == "case":
            stack.append(x[2])
        elif k == "default":
            stack.append(x[1])
        elif k == "try":
            stack.append(x[1])
            stack.extend(x[2])
        elif k == "expr":
            yield ("expr", x[1], x[2])
        elif k == "decl":
            yield ("decl", x[1], x[2], x[3], x[4])
        elif k == "ret":
            yield ("ret", x[1], x[2])


def subexprs(e):
    yield from walk(e)
