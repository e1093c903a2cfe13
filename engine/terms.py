"""Value denotations: hash-consed terms over atoms, their evaluation under a
valuation of the atoms, and the interval/linear fact domain used to decide
branches.  Nothing here executes the analysed program."""
import math
import random
from fractions import Fraction
import mpmath
from mpmath import mpf

mpmath.mp.dps = 40


class Undef(Exception):
    """the denotation is undefined (or out of the stated domain) here"""


class T:
    __slots__ = ("op", "args", "key", "_atoms", "nid")
    table = {}
    by_id = {}
    n = 0

    def __repr__(self):
        return show(self)


def mk(op, *args):
    k = (op,) + tuple(id(a) if isinstance(a, T) else a for a in args)
    t = T.table.get(k)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.key = k
        t._atoms = None
        T.n += 1
        t.nid = T.n
        T.table[k] = t
        T.by_id[t.nid] = t
    return t


def const(x):
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            return mk("special", repr(x))
        x = Fraction(x)
    return mk("c", Fraction(x))


ZERO, ONE, MONE = const(0), const(1), const(-1)


def atom(name):
    return mk("a", name)


def isc(t):
    return t.op == "c"


def add(*ts):
    out = []
    c = Fraction(0)
    for t in ts:
        if t.op == "c":
            c += t.args[0]
        elif t.op == "add":
            for u in t.args:
                if u.op == "c":
                    c += u.args[0]
                else:
                    out.append(u)
        else:
            out.append(t)
    if c != 0:
        out.append(const(c))
    if not out:
        return ZERO
    if len(out) == 1:
        return out[0]
    return mk("add", *out)


def mul(*ts):
    out = []
    c = Fraction(1)
    for t in ts:
        if t.op == "c":
            c *= t.args[0]
        elif t.op == "mul":
            for u in t.args:
                if u.op == "c":
                    c *= u.args[0]
                else:
                    out.append(u)
        else:
            out.append(t)
    if c == 0:
        return ZERO
    if c != 1:
        out.append(const(c))
    if not out:
        return ONE
    if len(out) == 1:
        return out[0]
    return mk("mul", *out)


def neg(t):
    return mul(MONE, t)


def sub(a, b):
    return add(a, neg(b))


def div(a, b):
    if isc(b) and b.args[0] != 0:
        return mul(a, const(1 / b.args[0]))
    return mk("div", a, b)


def pow_(a, b):
    if isc(b) and b.args[0] == 1:
        return a
    return mk("pow", a, b)


def log_(a, b):
    return mk("log", a, b)


def fn(name, *args):
    if name == "idiv":
        a, b = args
        # exact divisions: by a common divisor, or of a common multiple
        if b.op == "f" and b.args[0] == "gcd" and a in b.args[1:]:
            return div(a, b)
        if a.op == "f" and a.args[0] == "lcm" and b in a.args[1:]:
            return div(a, b)
        if isc(b) and b.args[0] in (1, -1):
            return mul(a, const(1 / b.args[0]))
    if name == "gcd" and any(isc(a) and a.args[0] in (1, -1) for a in args):
        return ONE
    if name == "irem" and isc(args[1]) and args[1].args[0] in (1, -1):
        return ZERO
    if all(isc(a) for a in args):
        try:
            v = FNS[name](*[a.args[0] for a in args])
            if isinstance(v, (int, Fraction)):
                return const(v)
        except (Undef, KeyError, ZeroDivisionError):
            pass
    return mk("f", name, *args)


# ----------------------------------------------------------------- evaluation
def tofrac(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, int):
        return Fraction(x)
    raise Undef


def isint(x):
    if isinstance(x, Fraction):
        return x.denominator == 1
    if isinstance(x, mpf):
        return mpmath.isint(x)
    if isinstance(x, float):
        return x.is_integer()
    return False


# evaluation runs in double precision first; a disagreement is only believed
# after the same valuation has been evaluated again with 40 digits
FAST = [True]


class precise:
    def __enter__(self):
        self.was = FAST[0]
        FAST[0] = False

    def __exit__(self, *a):
        FAST[0] = self.was


def toint(x):
    if isinstance(x, Fraction) and x.denominator == 1:
        return int(x)
    raise Undef


def _trunc(x):
    if isinstance(x, Fraction):
        return Fraction(int(x))
    if isinstance(x, mpf):
        r = mpmath.nint(x)
        if abs(x - r) < mpf(10) ** -25:
            return Fraction(int(r))
        return Fraction(int(x))
    if isinstance(x, float):
        r = round(x)
        if abs(x - r) < 1e-10 * (1 + abs(x)):
            return Fraction(r)
        return Fraction(int(x))
    raise Undef


def _rint(f):
    def g(*a):
        return Fraction(f(*[toint(x) for x in a]))

    return g


def _idiv(a, b):
    if b == 0:
        raise Undef
    q = abs(a) // abs(b)
    return q if (a >= 0) == (b >= 0) else -q


def _gcd(a, b):
    return math.gcd(a, b)


def _lcm(a, b):
    if a == 0 or b == 0:
        return 0
    return abs(a * b) // math.gcd(a, b)


def _floor(x):
    t = _trunc(x)
    return t - 1 if t > x else t


def _fdiv(a, b):
    if b == 0:
        raise Undef
    return a // b


def _irem(a, b):
    return a - b * _idiv(a, b)


def _ctz(x):
    if x == 0:
        raise Undef
    return (x & -x).bit_length() - 1


def _iroot(x, k):
    if x < 0:
        if k % 2 == 0:
            raise Undef
        return -_iroot(-x, k)
    if k == 2:
        return math.isqrt(x)
    lo, hi = 0, 1 << (x.bit_length() // k + 1)
    while lo < hi:
        m = (lo + hi + 1) // 2
        if m**k <= x:
            lo = m
        else:
            hi = m - 1
    return lo


def _cbrt(x):
    r = abs(num(x)) ** (1 / 3.0) if x else 0.0
    return -r if x < 0 else r


def _wrap(lo, hi):
    return _rint(lambda x: (x - lo) % (hi - lo + 1) + lo)


def _tof64(x):
    """the closest double"""
    if not isinstance(x, Fraction):
        return x
    try:
        return Fraction(float(x))
    except OverflowError:
        raise Undef


def _frem(a, b):
    if b == 0:
        raise Undef
    return vadd(a, vmul(-b, _trunc(vdiv(a, b))))


def _declen(x):
    """number of characters of the decimal form"""
    if not isinstance(x, Fraction):
        return Fraction(len(repr(float(x))))
    if x.denominator != 1:
        return Fraction(len(repr(float(x))))
    n = int(x)
    if n.bit_length() > 4000:
        return Fraction(int(n.bit_length() * 0.30103) + 1 + (n < 0))
    return Fraction(len(str(n)))


FNS = {
    "idiv": _rint(_idiv),
    "irem": _rint(lambda a, b: a - b * _idiv(a, b)),
    "fdiv": _rint(_fdiv),
    "fmod": _rint(lambda a, b: a - b * _fdiv(a, b)),
    "gcd": _rint(_gcd),
    "lcm": _rint(_lcm),
    "abs": lambda x: abs(x),
    "trunc": _trunc,
    "floor": _floor,
    "ceil": lambda x: -_floor(-x),
    "round": lambda x: _trunc(x + Fraction(1, 2)) if x >= 0 else _trunc(x - Fraction(1, 2)),
    "frem": _frem,
    "tof64": _tof64,
    # stand-ins for functions the analysis only knows to be functions
    "strlen": lambda x: _irem(abs(_trunc(x)), 3) + 1,
    "declen": lambda x: _declen(x),
    "strmap": lambda x: _trunc(x) - _irem(_trunc(x), 2),
    "bits": lambda x: x,
    "bitlen": _rint(lambda x: abs(x).bit_length()),
    "ctz": _rint(_ctz),
    "popcount": _rint(lambda x: bin(abs(x)).count("1")),
    "iroot": _rint(_iroot),
    "cbrt": lambda x: _cbrt(x),
    "idm": lambda x: abs(x),
    "ide": lambda x: Fraction(0),
    "ids": lambda x: Fraction(1 if x >= 0 else -1),
    "sgn": lambda x: Fraction((x > 0) - (x < 0)),
    "max": lambda a, b: max(a, b),
    "min": lambda a, b: min(a, b),
    "ln": lambda x: _ln(x),
    "exp": lambda x: _exp(x),
    "sin": lambda x: math.sin(num(x)) if FAST[0] else mpmath.sin(num(x)),
    "cos": lambda x: math.cos(num(x)) if FAST[0] else mpmath.cos(num(x)),
}


WIDTHS = {}
for _n, _b in (("8", 8), ("16", 16), ("32", 32), ("64", 64), ("128", 128), ("size", 64)):
    for _s in "IU":
        WIDTHS[_s + _n] = (-(2 ** (_b - 1)), 2 ** (_b - 1) - 1) if _s == "I" else (0, 2**_b - 1)
        FNS["wrap." + _s + _n] = _wrap(*WIDTHS[_s + _n])


def flog(x):
    """natural logarithm of a positive number"""
    if not FAST[0]:
        return mpmath.log(num(x))
    if isinstance(x, Fraction):
        if near_one(x):
            return math.log1p(float(x - 1))
        return math.log(x.numerator) - math.log(x.denominator)
    return math.log(x)


def near_one(x):
    return isinstance(x, Fraction) and 0 < abs(x - 1) < Fraction(1, 10000)


def _ln(x):
    if x <= 0:
        raise Undef
    return flog(x)


def _exp(x):
    if FAST[0]:
        if abs(x) > 300:
            raise Undef
        return math.exp(num(x))
    if abs(x) > 3000:
        raise Undef
    return mpmath.exp(num(x))


def num(x):
    if isinstance(x, Fraction):
        if FAST[0]:
            try:
                return x.numerator / x.denominator
            except OverflowError:
                raise Undef
        return mpf(x.numerator) / mpf(x.denominator)
    return x


def vadd(a, b):
    if isinstance(a, Fraction) and isinstance(b, Fraction):
        return a + b
    return num(a) + num(b)


def vmul(a, b):
    if isinstance(a, Fraction) and isinstance(b, Fraction):
        return a * b
    return num(a) * num(b)


def vdiv(a, b):
    if b == 0:
        raise Undef
    if isinstance(a, Fraction) and isinstance(b, Fraction):
        return a / b
    return num(a) / num(b)


MAXBITS = 6000


def snap(x):
    return x


def vpow(a, b, flags):
    if b == 0:
        if a == 0:
            raise Undef
        return Fraction(1)
    if a == 0:
        if b > 0:
            flags.zero = True
            return Fraction(0)
        raise Undef
    bi = isint(b)
    if bi and not isinstance(b, Fraction):
        b = Fraction(int(mpmath.nint(b)))
    if not bi:
        flags.nonint = True
    if a < 0:
        flags.nonpos = True
        if not bi:
            raise Undef
    if bi and isinstance(a, Fraction) and abs(a) == 1:
        return a if int(b) % 2 else Fraction(1)
    if abs(b) > 5000 and not near_one(a):
        raise Undef
    if bi and isinstance(a, Fraction) and not (near_one(a) and abs(b) > 100):
        n = int(b)
        bits = max(a.numerator.bit_length(), a.denominator.bit_length())
        if bits * abs(n) > MAXBITS:
            raise Undef
        return a ** n
    if FAST[0]:
        e = num(b) * flog(abs(a))
        if abs(e) > 650:
            raise Undef
        r = math.exp(e) if not isinstance(a, float) or abs(e) > 300 else abs(a) ** num(b)
        return -r if a < 0 and int(b) % 2 else r
    am, bm = num(a), num(b)
    if abs(bm * mpmath.log(abs(am))) > 3000:
        raise Undef
    if a < 0:
        r = mpmath.power(-am, bm)
        return -r if int(b) % 2 else r
    return mpmath.power(am, bm)


def vlog(a, b):
    if a <= 0 or b <= 0 or b == 1:
        raise Undef
    return flog(a) / flog(b)


class Flags:
    __slots__ = ("nonint", "nonpos", "zero")

    def __init__(self):
        self.nonint = self.nonpos = self.zero = False

    def bad(self):
        # outside the stated domain: a negative base together with a
        # fractional exponent somewhere in the same comparison
        return self.nonint and self.nonpos


def ev(t, env, flags):
    """evaluate t; env is an Env with .atom(name)"""
    memo = env.memo
    r = memo.get(t)
    if r is not None:
        return r
    op = t.op
    if op == "c":
        r = t.args[0]
    elif op == "a":
        r = env.atom(t.args[0])
    elif op == "add":
        r = Fraction(0)
        for u in t.args:
            r = vadd(r, ev(u, env, flags))
    elif op == "mul":
        r = Fraction(1)
        for u in t.args:
            r = vmul(r, ev(u, env, flags))
    elif op == "div":
        r = vdiv(ev(t.args[0], env, flags), ev(t.args[1], env, flags))
    elif op == "pow":
        r = vpow(ev(t.args[0], env, flags), ev(t.args[1], env, flags), flags)
    elif op == "log":
        r = vlog(ev(t.args[0], env, flags), ev(t.args[1], env, flags))
    elif op == "f":
        r = FNS[t.args[0]](*[ev(u, env, flags) for u in t.args[1:]])
    elif op == "special":
        raise Undef
    else:
        raise Undef
    if isinstance(r, Fraction):
        if r.numerator.bit_length() > MAXBITS * 4 or r.denominator.bit_length() > MAXBITS * 4:
            raise Undef
    memo[t] = r
    return r


def close(a, b):
    if isinstance(a, Fraction) and isinstance(b, Fraction):
        return a == b
    a, b = num(a), num(b)
    if FAST[0]:
        return abs(a - b) <= 1e-9 * (1 + abs(a) + abs(b))
    return abs(a - b) <= mpf(10) ** -18 * (1 + abs(a) + abs(b))


def near(a, b):
    """equal beyond the doubt of floating point evaluation"""
    if isinstance(a, Fraction) and isinstance(b, Fraction):
        return a == b
    a, b = num(a), num(b)
    return abs(a - b) <= 1e-13 * (abs(a) + abs(b))


def atoms(t):
    if t._atoms is None:
        if t.op == "a":
            t._atoms = frozenset([t.args[0]])
        else:
            s = frozenset()
            for u in t.args:
                if isinstance(u, T):
                    s = s | atoms(u)
            t._atoms = s
    return t._atoms


def show(t, d=0):
    if d > 8:
        return "…"
    op = t.op
    if op == "c":
        return str(t.args[0])
    if op == "a":
        return "v(%s)" % t.args[0]
    if op == "special":
        return t.args[0]
    s = [show(u, d + 1) for u in t.args if isinstance(u, T)]
    if op == "add":
        return "(" + " + ".join(s) + ")"
    if op == "mul":
        return "(" + " * ".join(s) + ")"
    if op == "div":
        return "(%s / %s)" % tuple(s)
    if op == "pow":
        return "%s^%s" % tuple(s)
    if op == "log":
        return "log(%s, %s)" % tuple(s)
    return "%s(%s)" % (t.args[0], ", ".join(s))


# ------------------------------------------------------------- linear view
def linear(t):
    """t as (dict sub-term -> Fraction, constant)"""
    d = {}
    c = Fraction(0)

    def go(u, k):
        nonlocal c
        if u.op == "c":
            c += k * u.args[0]
        elif u.op == "add":
            for w in u.args:
                go(w, k)
        elif u.op == "mul":
            cs = [w for w in u.args if w.op == "c"]
            rest = [w for w in u.args if w.op != "c"]
            for w in cs:
                k = k * w.args[0]
            if len(rest) == 1:
                go(rest[0], k)
            else:
                r = mk("mul", *sorted(rest, key=lambda w: w.nid))
                d[r] = d.get(r, 0) + k
        else:
            d[u] = d.get(u, 0) + k

    go(t, Fraction(1))
    return {k: v for k, v in d.items() if v != 0}, c


class Interval:
    __slots__ = ("lo", "los", "hi", "his", "neq", "integral")

    def __init__(self):
        self.lo = self.hi = None
        self.los = self.his = False
        self.neq = set()
        self.integral = False

    def empty(self):
        if self.lo is not None and self.hi is not None:
            if self.lo > self.hi:
                return True
            if self.lo == self.hi and (self.los or self.his or self.lo in self.neq):
                return True
        return False

    def tighten(self):
        if self.integral:
            for _ in range(8):
                ch = False
                if self.lo is not None:
                    l = Fraction(math.ceil(self.lo))
                    if self.los and l == self.lo:
                        l += 1
                    if l in self.neq:
                        l += 1
                    if l != self.lo or self.los:
                        self.lo, self.los, ch = l, False, True
                if self.hi is not None:
                    h = Fraction(math.floor(self.hi))
                    if self.his and h == self.hi:
                        h -= 1
                    if h in self.neq:
                        h -= 1
                    if h != self.hi or self.his:
                        self.hi, self.his, ch = h, False, True
                if not ch:
                    break
        else:
            if self.lo is not None and self.lo in self.neq:
                self.los = True
            if self.hi is not None and self.hi in self.neq:
                self.his = True

    def copy(self):
        r = Interval()
        r.lo, r.los, r.hi, r.his, r.integral = self.lo, self.los, self.hi, self.his, self.integral
        r.neq = set(self.neq)
        return r

    def meet(self, op, c):
        if op == "==":
            if self.lo is None or c > self.lo:
                self.lo, self.los = c, False
            if self.hi is None or c < self.hi:
                self.hi, self.his = c, False
        elif op == "!=":
            self.neq.add(c)
        elif op in ("<", "<="):
            s = op == "<"
            if self.hi is None or c < self.hi or (c == self.hi and s):
                self.hi, self.his = c, s
        elif op in (">", ">="):
            s = op == ">"
            if self.lo is None or c > self.lo or (c == self.lo and s):
                self.lo, self.los = c, s
        self.tighten()


NEG = {"==": "!=", "!=": "==", "<": ">=", ">=": "<", "<=": ">", ">": "<="}
FLIP = {"==": "==", "!=": "!=", "<": ">", ">": "<", "<=": ">=", ">=": "<="}


class Facts:
    """numeric facts along one trace partition"""

    def __init__(self):
        self.list = []  # (op, t1, t2)
        self.iv = {}
        self.integral = set()  # terms known integral
        self.isint = set()  # terms required integral

    def canon(self, t1, t2):
        d, c = linear(sub(t1, t2))
        if not d:
            return None, c, 1
        items = sorted(d.items(), key=lambda kv: kv[0].nid)
        k0 = items[0][1]
        key = tuple((u.nid, v / k0) for u, v in items)
        integral = all(v / k0 == int(v / k0) for _, v in items) and all(self.is_integral(u) for u, _ in items)
        return (key, integral), -c / k0, (1 if k0 > 0 else -1)

    def is_integral(self, t):
        if t in self.integral:
            return True
        if t.op == "c":
            return t.args[0].denominator == 1
        if t.op in ("add", "mul"):
            return all(self.is_integral(u) for u in t.args)
        if t.op == "f" and t.args[0] in ("idiv", "irem", "gcd", "lcm", "trunc", "floor", "ceil", "round"):
            return True
        if t.op == "f" and t.args[0].startswith("wrap."):
            return True
        if t.op == "f" and t.args[0] in ("abs", "tof64"):
            return self.is_integral(t.args[1])
        return False

    def decide(self, op, t1, t2):
        """True/False when implied, None when both outcomes are possible"""
        k, c, s = self.canon(t1, t2)
        if k is None:
            d = c  # t1-t2 == c
            return {"==": d == 0, "!=": d != 0, "<": d < 0, "<=": d <= 0, ">": d > 0, ">=": d >= 0}[op]
        key, integral = k
        o = op if s > 0 else FLIP[op]
        iv = self.iv.get(key)
        if iv is None:
            iv = self.default_iv(t1, t2, key)
            iv.integral = integral
            self.iv[key] = iv
            iv.tighten()
        iv = self.refine(iv, key)
        a = iv.copy()
        a.meet(o, c)
        if a.empty():
            return False
        b = iv.copy()
        b.meet(NEG[o], c)
        if b.empty():
            return True
        return None

    def refine(self, iv, key):
        """meet with what the parts of the linear form imply"""
        lo = hi = Fraction(0)
        ls = hs = False
        for nid, v in key:
            u = T.by_id[nid]
            h = self.hull(u, 0) if len(key) > 1 else self.hull_parts(u, 0)
            if h is None:
                lo = hi = None
                break
            l, lstrict, g, gstrict = h
            if v < 0:
                l, lstrict, g, gstrict = g, gstrict, l, lstrict
            if lo is not None:
                if l is None:
                    lo = None
                else:
                    lo, ls = lo + v * l, ls or lstrict
            if hi is not None:
                if g is None:
                    hi = None
                else:
                    hi, hs = hi + v * g, hs or gstrict
        r = iv.copy()
        if len(key) == 1 and self.nonzero_parts(T.by_id[key[0][0]], 0):
            r.meet("!=", Fraction(0))
        if lo is not None:
            r.meet(">" if ls else ">=", lo)
        if hi is not None:
            r.meet("<" if hs else "<=", hi)
        return r

    def hull(self, u, depth):
        """(lo, strict, hi, strict) of a term, or None"""
        if u.op == "c":
            return (u.args[0], False, u.args[0], False)
        iv = self.iv.get(((u.nid, Fraction(1)),))
        h = self.hull_parts(u, depth)
        if iv is None:
            return h
        lo, ls, hi, hs = iv.lo, iv.los, iv.hi, iv.his
        if h is not None:
            if h[0] is not None and (lo is None or h[0] > lo or (h[0] == lo and h[1])):
                lo, ls = h[0], h[1]
            if h[2] is not None and (hi is None or h[2] < hi or (h[2] == hi and h[3])):
                hi, hs = h[2], h[3]
        if lo is None and hi is None:
            return None
        return (lo, ls, hi, hs)

    def sign(self, u, depth):
        """'+', '0+', '-', '0-', '0' or None"""
        h = self.hull(u, depth)
        if h is None:
            return None
        lo, ls, hi, hs = h
        if lo is not None and (lo > 0 or (lo == 0 and ls)):
            return "+"
        if hi is not None and (hi < 0 or (hi == 0 and hs)):
            return "-"
        iv = self.iv.get(((u.nid, Fraction(1)),))
        nz = iv is not None and 0 in iv.neq
        if lo == 0:
            return "+" if nz else "0+"
        if hi == 0:
            return "-" if nz else "0-"
        return None

    def hull_parts(self, u, depth):
        if depth > 6:
            return None
        if u.op == "mul":
            s, z = 1, False
            for w in u.args:
                g = self.sign(w, depth + 1)
                if g is None:
                    return None
                if "-" in g:
                    s = -s
                if "0" in g:
                    z = True
            return (Fraction(0), not z, None, False) if s > 0 else (None, False, Fraction(0), not z)
        if u.op == "pow":
            g = self.sign(u.args[0], depth + 1)
            if g == "+":
                return (Fraction(0), True, None, False)
            if g == "0+":
                return (Fraction(0), False, None, False)
            return None
        if u.op == "div":
            a, b = self.sign(u.args[0], depth + 1), self.sign(u.args[1], depth + 1)
            if a is None or b is None:
                return None
            neg_ = ("-" in a) != ("-" in b)
            z = "0" in a
            return (None, False, Fraction(0), not z) if neg_ else (Fraction(0), not z, None, False)
        if u.op == "add":
            d, c = linear(u)
            if len(d) == 1 and list(d)[0] is u:
                return None
            lo = hi = c
            ls = hs = False
            for w, v in d.items():
                h = self.hull(w, depth + 1)
                if h is None:
                    return None
                l, l2, g, g2 = h
                if v < 0:
                    l, l2, g, g2 = g, g2, l, l2
                lo = None if lo is None or l is None else lo + v * l
                ls = ls or l2
                hi = None if hi is None or g is None else hi + v * g
                hs = hs or g2
            if lo is None and hi is None:
                return None
            return (lo, ls, hi, hs)
        if u.op == "f" and u.args[0] in ("abs", "lcm"):
            return (Fraction(0), False, None, False)
        if u.op == "f" and u.args[0].startswith("wrap."):
            lo, hi = WIDTHS[u.args[0][5:]]
            return (Fraction(lo), False, Fraction(hi), False)
        if u.op == "f" and u.args[0] == "gcd":
            strict = any(self.nonzero(w) for w in u.args[1:])
            return (Fraction(1), False, None, False) if strict else (Fraction(0), False, None, False)
        return None

    def nonzero(self, u):
        if u.op == "c":
            return u.args[0] != 0
        if self.sign(u, 3) in ("+", "-"):
            return True
        iv = self.iv.get(((u.nid, Fraction(1)),))
        if iv is not None and 0 in iv.neq:
            return True
        return self.nonzero_parts(u, 0)

    def nonzero_parts(self, u, depth):
        if depth > 5:
            return False
        if u.op == "mul":
            return all(self.nonzero(w) for w in u.args)
        if u.op == "div":
            return self.nonzero(u.args[0])
        if u.op == "pow":
            return self.nonzero(u.args[0])
        if u.op == "f" and u.args[0] == "gcd":
            return any(self.nonzero(w) for w in u.args[1:])
        if u.op == "f" and u.args[0] == "lcm":
            return all(self.nonzero(w) for w in u.args[1:])
        return False

    def default_iv(self, t1, t2, key):
        iv = Interval()
        # squares and absolute values / gcds are non-negative
        if len(key) == 1:
            d, c = linear(sub(t1, t2))
            (u, k) = list(d.items())[0]
            if u.op == "f" and u.args[0] in ("abs", "gcd", "lcm"):
                iv.lo = Fraction(0)
        return iv

    def assume(self, op, t1, t2):
        self.list.append((op, t1, t2))
        k, c, s = self.canon(t1, t2)
        if k is None:
            return
        key, integral = k
        iv = self.iv.get(key)
        if iv is None:
            iv = self.default_iv(t1, t2, key)
            iv.integral = integral
            self.iv[key] = iv
        iv.integral = iv.integral or integral
        was = iv.lo is not None and iv.lo == iv.hi
        iv.meet(op if s > 0 else FLIP[op], c)
        if op != "==" and not was and iv.lo is not None and iv.lo == iv.hi and not iv.empty():
            # two bounds met: the equality itself is what valuations need
            u = add(*[mul(const(v), T.by_id[n]) for n, v in key])
            self.list.append(("==", u, const(iv.lo)))


OPS = {
    "==": lambda a, b: close(a, b),
    "!=": lambda a, b: not close(a, b),
    "<": lambda a, b: a < b and not close(a, b),
    "<=": lambda a, b: a <= b or close(a, b),
    ">": lambda a, b: a > b and not close(a, b),
    ">=": lambda a, b: a >= b or close(a, b),
}


def occurrences(t, name):
    if t.op == "a":
        return 1 if t.args[0] == name else 0
    if name not in atoms(t):
        return 0
    return sum(occurrences(u, name) for u in t.args if isinstance(u, T))


def isolate(t, name, rhs):
    """solve t == rhs for the atom `name`, which occurs exactly once in t"""
    while True:
        if t.op == "a":
            return rhs
        if t.op == "add":
            inn = [u for u in t.args if name in atoms(u)]
            if len(inn) != 1:
                return None
            rhs = sub(rhs, add(*[u for u in t.args if u is not inn[0]]))
            t = inn[0]
        elif t.op == "mul":
            inn = [u for u in t.args if name in atoms(u)]
            if len(inn) != 1:
                return None
            rhs = div(rhs, mul(*[u for u in t.args if u is not inn[0]]))
            t = inn[0]
        elif t.op == "div":
            a, b = t.args
            if name in atoms(a):
                rhs, t = mul(rhs, b), a
            else:
                rhs, t = div(a, rhs), b
        elif t.op == "pow":
            a, b = t.args
            if name in atoms(a):
                rhs, t = pow_(rhs, div(ONE, b)), a
            else:
                rhs, t = log_(rhs, a), b
        elif t.op == "log":
            a, b = t.args
            if name in atoms(a):
                rhs, t = pow_(b, rhs), a
            else:
                rhs, t = pow_(a, div(ONE, rhs)), b
        else:
            return None


SMALL = [Fraction(x) for x in (2, 3, 4, 5, 6, 7, 8, 9, 1, 0, 10, 12, 16)]
BIG = [Fraction(10) ** 400, -(Fraction(10) ** 400), Fraction(2) ** 70, -(Fraction(2) ** 70)]
BIG += [Fraction(2) ** k + d for k in (31, 32, 33, 40, 53, 63, 64) for d in (0, 1)]
FAR = [Fraction(10) ** k for k in (-320, -40, -20, -17, -15, -12, -10, -8, -6, -4, -3, 4, 5, 6, 7, 9, 12, 15, 16, 18, 19, 20, 40, 300)]
FAR += [x * Fraction(7, 3) for x in FAR] + [x + 1 for x in FAR if x > 1] + [Fraction(2) ** k for k in (31, 32, 53, 63, 64)]
NEAR = [1 + Fraction(1, 2**33), 1 - Fraction(1, 2**33), 1 + Fraction(1, 2**64), 1 + Fraction(1, 2**40)]


class Env:
    def __init__(self, rnd, kind, defs, hints, mode):
        self.rnd = rnd
        self.kind = kind  # name -> 'int' | 'real' | None
        self.defs = defs  # name -> term
        self.hints = hints  # name -> Interval
        self.mode = mode
        self.val = {}
        self.memo = {}
        self.busy = set()
        self.flags = Flags()

    def atom(self, name):
        v = self.val.get(name)
        if v is not None:
            return v
        d = self.defs.get(name)
        if d is not None:
            if name in self.busy:
                raise Undef
            self.busy.add(name)
            v = ev(d, self, self.flags)
            self.busy.discard(name)
        else:
            v = self.sample(name)
        if self.kind.get(name) == "int":
            if not isinstance(v, Fraction):
                r = mpmath.nint(v)
                if abs(v - r) < (mpf(10) ** -20 if isinstance(v, mpf) else 1e-11 * (1 + abs(v))):
                    v = Fraction(int(r))
            if not isint(v):
                raise Undef
        h = self.hints.get(name)
        if h is not None:
            if h.lo is not None and (v < h.lo or (h.los and v == h.lo)):
                raise Undef
            if h.hi is not None and (v > h.hi or (h.his and v == h.hi)):
                raise Undef
            if v in h.neq:
                raise Undef
        self.val[name] = v
        return v

    def sample(self, name):
        r = self.rnd
        k = self.kind.get(name)
        h = self.hints.get(name)
        m = self.mode
        if h is not None and h.lo is not None and h.hi is not None:
            if h.lo == h.hi:
                return h.lo
            if k == "int":
                lo, hi = int(h.lo), int(h.hi)
                if hi - lo < 10 ** 9:
                    return Fraction(r.randint(lo, hi))
                if m == "big" and r.random() < 0.8:
                    ends = [lo, lo + 1, hi, hi - 1, lo // 2, hi // 2, hi // 2 + 1, 2**32, 2**33 + 1, -(2**33), 2**31, 2**40, 2**60, 2**60 + 1]
                    return Fraction(r.choice([x for x in ends if lo <= x <= hi]))
                if m != "big":
                    return Fraction(r.randint(max(lo, -12), min(hi, 12))) if lo <= 12 and hi >= -12 else Fraction(lo + r.randint(0, 5))
            else:
                lo, hi = h.lo, h.hi
                return lo + (hi - lo) * Fraction(r.randint(1, 99), 100)
        if m == "big" and k == "int" and self.val and r.random() < 0.35:
            # close to, or a machine word away from, a value already chosen
            o = r.choice(sorted(self.val))
            if self.kind.get(o) == "int":
                return self.val[o] + r.choice([0, 1, -1, 2**32, 2**64, -(2**32)])
        sign = 1
        if k in ("int", "real") or m == "signed":
            if m in ("signed", "int", "big") and r.random() < 0.5:
                sign = -1
        if h is not None:
            if h.lo is not None and h.lo >= 0:
                sign = 1
            elif h.hi is not None and h.hi <= 0:
                sign = -1
        if k == "int" or m == "int":
            if m == "big":
                x = r.random()
                if x < 0.5:
                    return abs(r.choice(BIG)) * sign
                if x < 0.75:
                    return sign * Fraction(r.choice([0, 1, 1]))
            v = r.choice(SMALL)
            if r.random() < 0.2:
                v = Fraction(r.randint(0, 40))
            base = Fraction(0)
            if h is not None and h.lo is not None and sign > 0 and h.lo > 0:
                base = Fraction(int(h.lo))
            if h is not None and h.hi is not None and sign < 0 and h.hi < 0:
                base = Fraction(-int(h.hi))
            return sign * (v + base)
        v = Fraction(r.randint(2, 40), r.choice([3, 5, 7, 8, 11, 13]))
        x = r.random() if m == "big" else 1
        if x < 0.25:
            v = r.choice(NEAR)
        elif x < 0.6 and k == "real":
            v = r.choice(FAR)
        elif r.random() < 0.15:
            v = r.choice(SMALL)
        if h is not None and h.lo is not None and sign > 0 and h.lo > 0:
            v = v + h.lo
        if h is not None and h.hi is not None and sign < 0 and h.hi < 0:
            v = v - h.hi
        return sign * v


def solve_defs(eqs, defs, kinds={}):
    """orient equality facts into definitions where one atom can be isolated.
    Returns (defs, residual equalities)."""
    defs = dict(defs)
    residual = []

    def depends(t, name, seen=None):
        seen = set() if seen is None else seen
        for a in atoms(t):
            if a == name:
                return True
            if a in seen:
                continue
            seen.add(a)
            if a in defs and depends(defs[a], name, seen):
                return True
        return False

    def expand_atoms(t):
        out, stack, seen = [], list(atoms(t)), set()
        while stack:
            a = stack.pop()
            if a in seen:
                continue
            seen.add(a)
            if a in defs:
                stack.extend(atoms(defs[a]))
            else:
                out.append(a)
        return sorted(out)

    def subst_defs(t, depth=0):
        memo = {}

        def go(u, d):
            if not atoms(u):
                return u
            if u in memo:
                return memo[u]
            if u.op == "a":
                r = go(defs[u.args[0]], d + 1) if u.args[0] in defs and d < 30 else u
            else:
                r = rebuild(u, [go(w, d) if isinstance(w, T) else w for w in u.args])
            memo[u] = r
            return r

        return go(t, depth)

    for t1, t2 in eqs:
        done = False
        for a, b in ((t1, t2), (t2, t1)):
            if a.op == "a" and a.args[0] not in defs and not depends(b, a.args[0]):
                defs[a.args[0]] = b
                done = True
                break
        if done:
            continue
        # try isolating a free atom
        e1, e2 = subst_defs(t1), subst_defs(t2)
        cands = sorted(atoms(e1) | atoms(e2), key=lambda n: (kinds.get(n) == "int", n))
        for name in cands:
            o1, o2 = occurrences(e1, name), occurrences(e2, name)
            if o1 + o2 != 1:
                continue
            if o1:
                r = isolate(e1, name, e2)
            else:
                r = isolate(e2, name, e1)
            if r is not None and name not in defs and not depends(r, name):
                defs[name] = r
                done = True
                break
        if not done:
            residual.append((t1, t2))
    return defs, residual


def rebuild(u, args):
    if u.op == "add":
        return add(*args)
    if u.op == "mul":
        return mul(*args)
    if u.op == "div":
        return div(*args)
    if u.op == "pow":
        return pow_(*args)
    if u.op == "log":
        return log_(*args)
    if u.op == "f":
        return fn(*args)
    return u


MODES = ["pos", "int", "signed", "pos", "int", "signed", "int", "big"]


class Sampler:
    """enumerates valuations under which every fact of a partition holds"""

    def __init__(self, facts, defs, kinds):
        eqs = [(a, b) for op, a, b in facts.list if op == "=="]
        rest = [f for f in facts.list if f[0] != "=="]
        self.kinds = kinds
        self.defs, residual = solve_defs(eqs, defs, kinds)
        self.hints = {}
        self.checks = [(op, a, b) for op, a, b in rest] + [("==", a, b) for a, b in residual]
        for op, a, b in self.checks:
            d, c = linear(sub(a, b))
            if len(d) == 1:
                (u, k), = d.items()
                if u.op == "a":
                    iv = self.hints.get(u.args[0])
                    if iv is None:
                        iv = self.hints[u.args[0]] = Interval()
                        iv.integral = kinds.get(u.args[0]) == "int"
                    iv.meet(op if k > 0 else FLIP[op], -c / k)
        self.dead = any(iv.empty() for iv in self.hints.values())
        # cheap facts first
        self.checks.sort(key=lambda c: len(atoms(c[1])) + len(atoms(c[2])))

    def holds(self, env):
        try:
            for op, a, b in self.checks:
                if not OPS[op](ev(a, env, env.flags), ev(b, env, env.flags)):
                    return False
            return True
        except (Undef, OverflowError, ZeroDivisionError, ValueError, TypeError):
            return False

    def envs(self, rnd, tries, modes):
        if self.dead:
            return
        for i in range(tries):
            env = Env(rnd, self.kinds, self.defs, self.hints, modes[i % len(modes)])
            if self.holds(env):
                yield env

    def again(self, env):
        """the same free choices, evaluated precisely"""
        e = Env(env.rnd, self.kinds, self.defs, self.hints, env.mode)
        for n, v in env.val.items():
            if n not in self.defs:
                e.val[n] = v
        return e


_SENS = {}


def sensitive(t):
    """does the term hold a function that only shows at the width of a machine number?"""
    r = _SENS.get(t.nid)
    if r is None:
        r = False
        if t.op == "f":
            n = t.args[0]
            r = n.startswith("wrap.") or n in ("tof64", "declen", "bits", "trunc", "round", "floor", "ceil")
            if n in ("irem", "fmod", "idiv", "fdiv"):
                r = r or any(isinstance(x, T) and x.op == "c" and abs(x.args[0]) >= 2**16 for x in t.args[1:])
        r = r or any(isinstance(x, T) and sensitive(x) for x in t.args)
        _SENS[t.nid] = r
    return r


def compare(facts, defs, kinds, t1, t2, want=8, tries=240, seed=7, modes=None, allow=None):
    r = compare1(facts, defs, kinds, t1, t2, want, tries, seed, modes, allow)
    if r[0] in ("agree", "vacuous") and (sensitive(t1) or sensitive(t2) or any(sensitive(a) or sensitive(b) for op, a, b in facts.list)):
        q = compare1(facts, defs, kinds, t1, t2, 40, 300, seed, ["big"], allow)
        if q[0] == "differ" or r[0] == "vacuous":
            return q
    return r


def compare1(facts, defs, kinds, t1, t2, want, tries, seed, modes, allow):
    """compare two denotations on one partition.
    Returns (verdict, n, witness): 'same' (identical terms), 'agree' (n valuations),
    'differ' (witness valuation), 'vacuous' (no valuation found)."""
    if t1 is t2:
        return "same", 0, None
    sm = Sampler(facts, defs, kinds)
    n = 0
    for env in sm.envs(random.Random(seed), tries, modes or MODES):
        try:
            a, b = ev(t1, env, env.flags), ev(t2, env, env.flags)
        except (Undef, OverflowError, ZeroDivisionError, ValueError, TypeError):
            # one side is undefined: only the spec's domain is claimed
            continue
        if env.flags.bad():
            continue
        if near(a, b):
            n += 1
            if n >= want:
                return "agree", n, None
            continue
        with precise():
            e2 = sm.again(env)
            try:
                if not sm.holds(e2):
                    continue
                a, b = ev(t1, e2, e2.flags), ev(t2, e2, e2.flags)
            except (Undef, OverflowError, ZeroDivisionError, ValueError, TypeError):
                continue
            if e2.flags.bad():
                continue
            if close(a, b):
                n += 1
                if n >= want:
                    return "agree", n, None
                continue
            if allow is not None and not allow(e2):
                continue
            return "differ", n, (dict(e2.val), a, b)
    return ("agree", n, None) if n else ("vacuous", 0, None)


def feasible(facts, defs, kinds, tries=300, seed=3, allow=None):
    """a valuation under which the partition is reached, or None"""
    r = feasible1(facts, defs, kinds, tries, seed, allow, MODES)
    if r is None and any(sensitive(a) or sensitive(b) for op, a, b in facts.list):
        r = feasible1(facts, defs, kinds, 400, seed, allow, ["big"])
    return r


def feasible1(facts, defs, kinds, tries, seed, allow, modes):
    sm = Sampler(facts, defs, kinds)
    for env in sm.envs(random.Random(seed), tries, modes):
        if env.flags.bad():
            continue
        with precise():
            e2 = sm.again(env)
            if not sm.holds(e2) or e2.flags.bad():
                continue
            if allow is not None and not allow(e2):
                continue
            # every defined symbol must have a value too
            try:
                for n in sm.defs:
                    e2.atom(n)
            except (Undef, OverflowError, ZeroDivisionError, ValueError, TypeError):
                continue
            return dict(e2.val)
    return None
