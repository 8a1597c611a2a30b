"""Hash-consed value-number terms."""


class Term(tuple):
    """An interned tuple (kind, ...): equality and hash are by identity."""
    __slots__ = ()
    __hash__ = object.__hash__

    def __eq__(self, other):
        return self is other

    def __ne__(self, other):
        return self is not other

    def __repr__(self):
        return show(self)


_TABLE = {}


def _key(x):
    if isinstance(x, Term):
        return x
    if isinstance(x, tuple):
        return tuple(_key(y) for y in x)
    return (type(x).__name__, x)


def T(*parts):
    key = _key(tuple(parts))
    t = _TABLE.get(key)
    if t is None:
        t = tuple.__new__(Term, parts)
        _TABLE[key] = t
    return t


def C(v):
    return T("c", v)


NONE, TRUE, FALSE = C(None), C(True), C(False)


def is_const(t):
    return t[0] == "c"


def G(name):
    return T("g", name)


def P(name):
    return T("p", name)


def A(base, attr):
    return T("a", base, attr)


def walk(t):
    """All distinct sub-terms, iteratively."""
    seen, stack = set(), [t]
    while stack:
        x = stack.pop()
        if isinstance(x, Term):
            if id(x) in seen:
                continue
            seen.add(id(x))
            yield x
        if isinstance(x, tuple):
            stack.extend(y for y in x if isinstance(y, tuple))


def contains(t, sub):
    return any(x is sub for x in walk(t))


def subst(t, mapping, memo=None):
    memo = {} if memo is None else memo
    if isinstance(t, Term):
        if t in mapping:
            return mapping[t]
        if t in memo:
            return memo[t]
        r = T(*[subst(x, mapping, memo) if isinstance(x, tuple) else x for x in t])
        memo[t] = r
        return r
    return tuple(subst(x, mapping, memo) if isinstance(x, tuple) else x for x in t)


def show(t, depth=12):
    if not isinstance(t, tuple):
        return repr(t)
    if not t:
        return "()"
    if depth == 0:
        return "..."
    s = lambda x: show(x, depth - 1)
    k = t[0]
    if not isinstance(t, Term):
        return "(" + ", ".join(s(x) for x in t) + ")"
    if k == "c":
        return repr(t[1])
    if k in ("p", "g"):
        return str(t[1])
    if k == "self":
        return "self"
    if k == "a":
        return s(t[1]) + "." + t[2]
    if k == "i":
        return s(t[1]) + "[" + s(t[2]) + "]"
    if k == "call":
        f = t[1]
        a = [s(x) for x in t[2]] + ["%s=%s" % (n, s(v)) for n, v in t[3]]
        return (f[1] if f[0] == "tm" else s(f)) + "(" + ", ".join(a) + ")"
    if k == "cc":
        return ((s(t[2]) + ".") if t[2][1:2] != (None,) else "") + str(t[1]) + "(" + ", ".join(s(x) for x in t[3]) + ")"
    if k == "f":
        return (s(t[1]) + "." if t[1][0] != "this" else "") + t[2]
    if k == "par":
        return t[1]
    if k == "mm":
        return "%s(%s, %s)" % (t[1], s(t[2]), s(t[3]))
    if k == "rand":
        return "%s#%d(%s)" % (t[1], t[2], ", ".join(s(x) for x in t[3]))
    if k == "b":
        return "(" + s(t[2]) + " " + t[1] + " " + s(t[3]) + ")"
    if k == "u":
        return "(" + t[1] + s(t[2]) + ")"
    if k == "cmp":
        return "(" + s(t[2]) + " " + t[1] + " " + s(t[3]) + ")"
    if k == "not":
        return "not " + s(t[1])
    if k == "t":
        return "(" + ", ".join(s(x) for x in t[1]) + ")"
    if k == "l":
        return "[" + ", ".join(s(x) for x in t[1]) + "]"
    if k == "bm":
        return s(t[1]) + "." + t[2].split(".")[-1]
    if k == "fn":
        return t[1].split(".")[-1]
    if k == "cls":
        return t[1].split(".")[-1]
    return "%s<%s>" % (k, ", ".join(s(x) if isinstance(x, tuple) else str(x) for x in t[1:]))
