"""Random interpretation of value terms (after Gulwani and Necula): everything the analysis does not interpret is an uninterpreted function
with random values, arithmetic is exact, and the branch facts of two paths restrict the samples.  Two paths whose effects have equal values
under every sample found are taken to do the same; nothing of the program is run."""
import random
import sys
from fractions import Fraction
from .terms import Term, T, C

sys.set_int_max_str_digits(0)
STATIC = ("cls", "str", "fn")
ROUNDING = {"to_int"}


class Giveup(Exception):
    pass


class Sample:
    def __init__(self, seed, prog, erase=False):
        self.seed, self.prog, self.erase = seed, prog, erase
        self.ints = getattr(prog, "ints", {})
        self.over = {}          # key of an uninterpreted value -> the value
        self.vals = {}
        self.memo = {}
        self.div0 = False       # a division by zero was evaluated
        self.inexact = False    # a number grew too long and was replaced
        self.keep = []
        self.steps = 0

    def clear(self):
        self.memo = {}

    # ---- uninterpreted values
    def hashed(self, key, fixed=False):
        v = self.over.get(key)
        if v is not None:
            return v
        v = self.vals.get(key)
        if v is None:
            r = random.Random("%d|%r" % (self.seed, key))
            if fixed:
                v = Fraction(r.randrange(10 ** 6, 10 ** 9))
            else:
                k = r.random()
                v = Fraction(0) if k < .12 else Fraction(r.randint(-3, 4)) if k < .3 else Fraction(r.randint(-60, 60), r.choice((1, 1, 1, 2, 4)))
            self.vals[key] = v = self.typed(key, v)
        return v

    def integral(self, key):
        """0: any number, 1: an integer that is never negative, 2: an integer."""
        k = key[0]
        if k == "len" or k == "idx":
            return 1
        n = key[2] if k in ("a", "m", "bm") and len(key) > 2 else key[1] if k in ("p", "fn") else None
        return self.ints.get(n.rpartition(".")[2], 0) if isinstance(n, str) else 0

    def typed(self, key, v):
        k = self.integral(key)
        if k and v.denominator != 1:
            v = Fraction(v.numerator // v.denominator)
        return abs(v) if k == 1 else v

    def atomkey(self, t):
        """Key of the uninterpreted value a term stands for; None when it is interpreted."""
        r = self.ev(t)
        return self.memo[t][1] if isinstance(t, Term) and r is not None else None

    def ev(self, t):
        m = self.memo.get(t)
        if m is None:
            self.steps += 1
            if self.steps > 400000:
                raise Giveup()
            outer, self.div0 = self.div0, False
            v, key = self._ev(t)
            if v.denominator.bit_length() + v.numerator.bit_length() > 1500:
                self.inexact = True
                key = ("big", v)
                v = self.hashed(key)
            m = self.memo[t] = (v, key, self.div0)
            self.div0 = outer
        self.div0 = self.div0 or m[2]
        return m[0]

    def free(self, *parts):
        key = parts
        return self.hashed(key), key

    def rec(self, x):
        if isinstance(x, Term):
            return self.ev(x)
        if isinstance(x, tuple):
            return tuple(self.rec(y) for y in x)
        return x

    def count(self, base):
        """How many rounds a loop over this makes."""
        if self.erase:
            return Fraction(7)
        lv = 0
        if base[0] == "lv":
            base, lv = base[1], base[2]
        if base[0] == "call" and base[1][0] == "g" and base[1][1] == "range":
            a = base[2]
            if len(a) == 1:
                v = self.ev(a[0])
            else:
                v = self.ev(a[1]) - self.ev(a[0])
                if len(a) > 2:
                    s = self.ev(a[2])
                    v = -v if s == -1 else v if s == 1 else self.hashed(("step", v, s))
            return v if not lv else ("lv", v, lv)
        v = self.hashed(("len", self.ev(base)))
        return v if not lv else ("lv", v, lv)

    def pointer(self, t):
        """(place, offset) of a pointer value."""
        off = Fraction(0)
        while t[0] == "call" and t[1][0] == "g" and t[1][1] == "ptr_add" and len(t[2]) == 2:
            off += self.ev(t[2][1])
            t = t[2][0]
        return self.ev(t), off

    def _ev(self, t):
        k = t[0]
        if k == "c":
            v = t[1]
            if isinstance(v, bool):
                return Fraction(int(v)), None
            if v is None:
                return Fraction(0), None
            if isinstance(v, (int, float)):
                if v != v or v in (float("inf"), float("-inf")):
                    return self.hashed(("inf", repr(v)), True), None
                return Fraction(repr(v)) if isinstance(v, float) else Fraction(v), None
            return self.hashed(("const", repr(v)), True), None
        if k == "b":
            return self.binary(t)
        if k == "u":
            v = self.ev(t[2])
            if t[1] == "-":
                return -v, None
            if t[1] == "+":
                return v, None
            if t[1] == "~" and v.denominator == 1:
                return Fraction(~int(v)), None
            return self.free("u", t[1], v)
        if k == "not":
            return Fraction(int(self.ev(t[1]) == 0)), None
        if k == "cmp":
            a, b = self.ev(t[2]), self.ev(t[3])
            if t[1] == "<":
                return Fraction(int(a < b)), None
            if t[1] in ("==", "is"):
                return Fraction(int(a == b)), None
            return self.free("cmp", t[1], a, b)
        if k == "bool":
            vs = [self.ev(x) != 0 for x in t[2]]
            return Fraction(int(all(vs) if t[1] == "and" else any(vs))), None
        if k == "raises":
            return self.free("raises", self.rec(t[2][1]))
        if k == "cls" or k == "str" or k == "g":
            return self.hashed((k,) + tuple(x for x in t[1:] if not isinstance(x, tuple)), True), None
        if k == "a":
            if t[1][0] == "cls":
                return self.hashed(("enum", t[1][1], t[2]), True), None
            return self.free("a", self.ev(t[1]), t[2])
        if k == "i":
            b, off = self.pointer(t[1])
            return self.free("i", b, off + self.ev(t[2]))
        if k == "elem":
            base = t[1]
            n = self.count(base)
            if base[0] == "lv":
                base = base[1]
            i = self.hashed(("idx", n) + t[2:])
            return self.free("i", self.ev(base), i)
        if k == "idx":
            key = ("idx", self.count(t[1])) + t[2:]
            v = self.hashed(key)
            if v < 0 or v.denominator != 1:
                v = self.vals[key] = Fraction(abs(v.numerator) % 17)
            return v, key
        if k == "lv":
            return self.free("lv", self.count(t))
        if k == "draw":
            return self.free("draw", t[1], self.ev(t[2]))
        if k == "call":
            return self.call(t)
        if k in ("clos", "while", "fresh", "new"):
            return self.free(k, repr(t[1]))
        return self.free(k, self.rec(tuple(t[1:])))

    def binary(self, t):
        op, a, b = t[1], self.ev(t[2]), self.ev(t[3])
        if op == "+":
            return a + b, None
        if op == "-":
            return a - b, None
        if op == "*":
            return a * b, None
        if op == "/":
            if b == 0:
                self.div0 = True
                return self.free("div0", a)
            return a / b, None
        if op == "**":
            if b.denominator == 1 and 0 <= b <= 6:
                return a ** int(b), None
            if b.denominator == 1 and -4 <= b < 0 and a:
                return a ** int(b), None
            return self.free("pow", a, b)
        ints = a.denominator == 1 and b.denominator == 1
        if op in ("//", "%"):       # integers where the program runs; truncated division all the same
            if not b:
                self.div0 = True
                return self.free("div0", op, a)
            q = abs(a) // abs(b)
            q = q if (a < 0) == (b < 0) else -q
            return Fraction(q) if op == "//" else a - q * b, None
        if op in ("&", "|", "^") and ints:
            x, y = int(a), int(b)
            return Fraction(x & y if op == "&" else x | y if op == "|" else x ^ y), None
        if op == "<<" and ints and 0 <= b < 64:
            return a * 2 ** int(b), None
        return self.free("b", op, a, b)

    def call(self, t):
        f, args = t[1], t[2]
        n = f[1] if f[0] in ("tm", "g") else None
        if n in ("max", "min") and len(args) == 2 and not t[3]:
            return (max if n == "max" else min)(self.ev(args[0]), self.ev(args[1])), None
        if n in ("abs", "fabs") and len(args) == 1:
            return abs(self.ev(args[0])), None
        if n == "ptr_add" and len(args) == 2:
            b, off = self.pointer(t)
            return (b, None) if off == 0 else self.free("ptr", b, off)
        if n == "len" and len(args) == 1:
            return self.free("len", self.ev(args[0]))
        return self.free("call", *self.callparts(f, args, t[3]))

    def callparts(self, f, args, kws):
        vals = [self.ev(a) for a in args]
        if f[0] in ("bm", "fn", "um"):
            func = self.prog.find_func(f[2] if f[0] == "bm" else f[1])
            if func is not None:
                a = func.node.args
                pos = [x.arg for x in a.posonlyargs + a.args]
                if f[0] == "bm" and func.cls is not None and not func.is_static:
                    pos = pos[1:]
                for p in pos[len(vals):]:
                    d = func.default(p)
                    vals.append(self.ev(C(d.value)) if hasattr(d, "value") and isinstance(d.value, (int, float, bool, type(None))) else self.hashed(("dflt", p), True))
        kw = tuple(sorted((k, self.ev(v)) for k, v in kws))
        if f[0] == "bm":
            return ("bm", self.ev(f[1]), f[2]) + tuple(vals) + kw
        if f[0] == "a":
            return ("m", self.ev(f[1]), f[2]) + tuple(vals) + kw
        if f[0] in ("fn", "um", "g", "tm", "cls"):
            return (f[0], f[1]) + tuple(vals) + kw
        return (self.ev(f),) + tuple(vals) + kw

    # ---- branch facts
    def atoms(self, t, out):
        """Uninterpreted values a condition is made of."""
        self.ev(t)
        v, key, _ = self.memo[t]
        if key is not None:
            if key not in out:
                out.append(key)
            return
        if t[0] in ("b", "cmp"):
            self.atoms(t[2], out)
            self.atoms(t[3], out)
        elif t[0] == "u":
            self.atoms(t[2], out)
        elif t[0] == "not":
            self.atoms(t[1], out)
        elif t[0] == "bool":
            for x in t[2]:
                self.atoms(x, out)
        elif t[0] == "call" and len(t[2]):
            for x in t[2]:
                self.atoms(x, out)

    def holds(self, c):
        t, v = c
        return (self.ev(t) != 0) == v

    def repair(self, c, rnd):
        """Change an uninterpreted value so that the condition may hold."""
        t, want = c
        while t[0] == "not":
            t, want = t[1], not want
        if t[0] == "bool":
            rs = [(x, self.ev(x) != 0) for x in t[2]]
            if (t[1] == "and") == want:
                bad = [x for x, r in rs if r is not want]
                return self.repair((rnd.choice(bad), want), rnd) if bad else None
            return self.repair((rnd.choice(rs)[0], want), rnd)
        out = []
        self.atoms(t, out)
        out = [k for k in out if k[0] != "const"]
        if not out:
            return None
        key = rnd.choice(out)
        old = self.hashed(key)
        if t[0] != "cmp" or t[1] not in ("<", "==", "is"):
            self.over[key] = Fraction(rnd.choice((1, 1, 2, -1))) if want else Fraction(0)
            self.clear()
            return key
        diff = lambda: self.ev(t[2]) - self.ev(t[3])      # noqa: E731
        d0 = diff()
        self.over[key] = old + 1
        self.clear()
        slope = diff() - d0
        if slope == 0:
            self.over[key] = Fraction(rnd.randint(-9, 9))
        else:
            amount = Fraction(rnd.choice((1, 1, 2, 3, 5, 1)), rnd.choice((1, 1, 2)))
            if t[1] == "<":
                goal = -amount if want else amount * rnd.choice((0, 1, 1))
            else:
                goal = Fraction(0) if want else amount * rnd.choice((1, -1))
            self.over[key] = old + (goal - d0) / slope
        k = self.integral(key)
        if key[0] == "idx" and (self.over[key] < 0 or self.over[key].denominator != 1):
            self.over[key] = Fraction(rnd.randint(0, 6))
        elif k and (self.over[key].denominator != 1 or k == 1 and self.over[key] < 0):
            v = self.over[key]
            v = Fraction(v.numerator // v.denominator + rnd.randint(0, 1))
            self.over[key] = v if k == 2 or v >= 0 else Fraction(rnd.randint(0, 6))
        v = self.over[key]
        if v.denominator.bit_length() + v.numerator.bit_length() > 400:
            self.over[key] = Fraction(rnd.randint(-9, 9))
        self.clear()
        return key

    def satisfy(self, conds, tries=60, soft=()):
        """Make the conditions hold, and the soft ones where that is possible."""
        rnd = random.Random(self.seed)
        soft = list(soft)
        best = None
        for _ in range(tries):
            bad = [c for c in conds if not self.holds(c)]
            if not bad:
                less = [c for c in soft if not self.holds(c)]
                if not less:
                    return True
                if best is None or len(less) < best[0]:
                    best = (len(less), dict(self.over), dict(self.vals))
                bad = less
            c = rnd.choice(bad)
            if self.repair(c, rnd) is None:
                if c not in soft:
                    return False
                soft.remove(c)
        if not any(not self.holds(c) for c in conds):
            return True
        if best is not None:
            self.over, self.vals = best[1], best[2]
            self.clear()
            return not any(not self.holds(c) for c in conds)
        return False


def conditions(*states):
    out = []
    for st in states:
        for c, v in st.conds.items():
            if c[0] in ("nonempty", "partial"):
                continue
            out.append((c, v is True))
    return out


def choices(terms, limit=40):
    """The min, max and abs terms in these: what they choose, as conditions."""
    out, seen, todo = [], set(), list(terms)
    while todo and len(out) < limit:
        x = todo.pop()
        if isinstance(x, Term):
            if id(x) in seen:
                continue
            seen.add(id(x))
            if x[0] == "call" and x[1][0] in ("tm", "g") and not x[3]:
                if x[1][1] in ("max", "min") and len(x[2]) == 2:
                    out.append(T("cmp", "<", x[2][0], x[2][1]))
                elif x[1][1] in ("abs", "fabs") and len(x[2]) == 1:
                    out.append(T("cmp", "<", x[2][0], C(0)))
        if isinstance(x, tuple):
            todo += [y for y in x if isinstance(y, tuple)]
    return out
