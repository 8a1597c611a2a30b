"""Canonical polynomial form of a value term: sums of products are expanded and ordered, so that algebraically equal ways of
writing the same arithmetic compare equal.  Atoms are opaque (calls, cells, min/max); the numbering of random draws is dropped."""
from .terms import Term

LIMIT = 400


def _tag(t):
    return t[0]


class Canon:
    def __init__(self, atom=None):
        self.memo, self.atom = {}, atom

    def poly(self, t):
        """{monomial: coefficient}; monomial = sorted tuple of (atom, exponent)."""
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self._poly(t)
        return r

    def _poly(self, t):
        k = t[0]
        if k == "c" and isinstance(t[1], (int, float)) and not isinstance(t[1], bool):
            return {(): float(t[1])} if t[1] else {}
        if k == "b" and t[1] in "+-":
            a, b = self.poly(t[2]), self.poly(t[3])
            s = 1.0 if t[1] == "+" else -1.0
            out = dict(a)
            for m, c in b.items():
                out[m] = out.get(m, 0.0) + s * c
            return {m: c for m, c in out.items() if c}
        if k == "u" and t[1] == "-":
            return {m: -c for m, c in self.poly(t[2]).items()}
        if k == "b" and t[1] == "*":
            return self.mul(self.poly(t[2]), self.poly(t[3]), t)
        if k == "b" and t[1] == "/":
            return self.mul(self.poly(t[2]), self.inv(self.poly(t[3])), t)
        return {((self.key(t), 1),): 1.0}

    def inv(self, p):
        if len(p) == 1:
            (m, c), = p.items()
            return {tuple((a, -e) for a, e in m): 1.0 / c}
        return {(((("inv",) + self.freeze(p)), 1),): 1.0}

    def mul(self, a, b, t):
        if len(a) * len(b) > LIMIT:
            return {((("prod", self.freeze(a), self.freeze(b)), 1),): 1.0}
        out = {}
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                e = {}
                for x, n in m1 + m2:
                    e[x] = e.get(x, 0) + n
                m = tuple(sorted(((x, n) for x, n in e.items() if n), key=repr))
                out[m] = out.get(m, 0.0) + c1 * c2
        return {m: c for m, c in out.items() if c}

    def freeze(self, p):
        return tuple(sorted(((m, round(c, 12)) for m, c in p.items()), key=repr))

    def canon(self, t):
        return self.freeze(self.poly(t)) if isinstance(t, Term) else t

    def key(self, t):
        if self.atom is not None:
            r = self.atom(t)
            if r is not None:
                return r
        k = t[0]
        if k == "rand":
            return ("rand", t[1], tuple(self.canon(x) for x in t[3]))
        if k == "mm":
            args = set()

            def flat(x):
                if x[0] == "mm" and x[1] == t[1]:
                    flat(x[2])
                    flat(x[3])
                else:
                    args.add(self.canon(x))
            flat(t)
            return ("mm", t[1], tuple(sorted(args, key=repr)))
        return (k,) + tuple(self.sub(x) for x in t[1:])

    def sub(self, x):
        if isinstance(x, Term):
            if x[0] == "b" or x[0] == "u" or x[0] == "c" and isinstance(x[1], (int, float)):
                return self.canon(x)
            return self.key(x)
        if isinstance(x, tuple):
            return tuple(self.sub(y) for y in x)
        return x
