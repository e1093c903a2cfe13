"""Abstract interpreter over type-resolved MIR.

Abstract domain: numbers are denotation terms (terms.py) constrained by interval
facts; expressions are shapes whose unexplored parts stay symbolic (a set of
possible variants plus a value atom); collections are partitioned by length.
Control flow is trace-partitioned: each partition is one decision vector, and a
partition whose facts are contradictory is dropped.  No code of the analysed
crate is ever run and no solver is involved."""
import re
import sys

import mir

from fractions import Fraction

import terms as tm
from terms import T, const, atom, add, mul, neg, sub, div, pow_, log_, fn as tfn

sys.setrecursionlimit(20000)

EXPR = "ncas::base::expression::Expression"
CA = "ncas::base::commutative_association::CommutativeAssociation"
AO = "ncas::base::associative_operation::AssociativeOperation"
OP = "ncas::base::operation::Operation"
SYM = "ncas::base::symbol::Symbol"
OPTION = "std::option::Option"
RESULT = "std::result::Result"
ORDERING = "std::cmp::Ordering"

VAR, REAL, INT, MUL, ADD, POW, LOG, SIN, COS = range(9)
KINDS = frozenset(range(9))
KNAME = ["Variable", "Real", "Integer", "Multiplication", "Addition", "Power", "Logarithm", "Sine", "Cossine"]
NUMK = frozenset([REAL, INT])


class Unsupported(Exception):
    pass


class Infeasible(Exception):
    pass


class Cut(Exception):
    pass


class Panic(Exception):
    def __init__(self, msg, where, stack):
        Exception.__init__(self, msg)
        self.msg, self.where, self.stack = msg, where, stack


# ------------------------------------------------------------------- values
class Num:
    __slots__ = ("ty", "t", "tnt")

    def __init__(self, ty, t, tnt=False):
        self.ty, self.t, self.tnt = ty, t, tnt

    def __repr__(self):
        return "%s:%r" % (self.ty, self.t)


class Adt:
    __slots__ = ("n", "v", "f")

    def __init__(self, n, v, f):
        self.n, self.v, self.f = n, v, f

    def __repr__(self):
        nm = KNAME[self.v] if self.n == EXPR else "%s.%d" % (self.n.split("::")[-1], self.v)
        return "%s%r" % (nm, self.f)


class Tup:
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f

    def __repr__(self):
        return "(%s)" % ", ".join(map(repr, self.f))


class Seq:
    """Vec, array, slice, VecDeque"""

    __slots__ = ("items",)

    def __init__(self, items):
        self.items = items

    def __repr__(self):
        return repr(self.items)


class Heap:
    __slots__ = ("items", "srt")

    def __init__(self, items, srt=False):
        self.items, self.srt = items, srt

    def __repr__(self):
        return "{%s}" % ", ".join(map(repr, self.items))


class MapV:
    __slots__ = ("ents", "isset", "ordered")

    def __init__(self, isset=False, ordered=False):
        self.ents, self.isset, self.ordered = [], isset, ordered


class BoxV:
    __slots__ = ("f",)

    def __init__(self, v):
        self.f = [v]

    def __repr__(self):
        return "Box(%r)" % self.f[0]


class Ref:
    __slots__ = ("c", "i")

    def __init__(self, c, i):
        self.c, self.i = c, i

    def get(self):
        return self.c[self.i]

    def set(self, v):
        self.c[self.i] = v

    def __repr__(self):
        try:
            return "&%r" % (self.c[self.i],)
        except Exception:
            return "&?"


class Clo:
    __slots__ = ("fn", "f", "name")

    def __init__(self, fn, f, name):
        self.fn, self.f, self.name = fn, f, name


CALLS = frozenset(["Fn::call", "FnMut::call_mut", "FnOnce::call_once"])


class PyFn:
    """a function argument supplied by the analysis"""

    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f


class FnV:
    __slots__ = ("target",)

    def __init__(self, target):
        self.target = target


class StrV:
    __slots__ = ("p",)

    def __init__(self, p):
        self.p = p

    def __repr__(self):
        return "".join(x if isinstance(x, str) else "<%s>" % (x,) for x in self.p)


class HasherV:
    __slots__ = ("tr",)

    def __init__(self):
        self.tr = []


class Opq:
    """a value the analysis does not track"""

    __slots__ = ("why",)

    def __init__(self, why=""):
        self.why = why


class It:
    """abstract iterator: nxt() gives the next value or STOP"""

    __slots__ = ("nxt", "back", "parts")

    def __init__(self, nxt, back=None, parts=None):
        self.nxt, self.back, self.parts = nxt, back, parts


STOP = object()
UNIT = Tup([])


class ESym:
    __slots__ = ("name", "kinds", "payload", "alias", "role", "roles", "inp", "note", "a")

    def __init__(self, name, kinds, inp, note=None):
        self.name, self.kinds, self.inp, self.note = name, kinds, inp, note
        self.payload = None
        self.alias = None
        self.role = None
        self.roles = ()
        self.a = atom(name)

    def __repr__(self):
        r = self
        while isinstance(r, ESym) and r.alias is not None:
            r = r.alias
        if r is not self:
            return "%s=%r" % (self.name, r)
        k = "" if self.kinds == KINDS else ":" + "|".join(KNAME[i][:4] for i in sorted(self.kinds))
        p = "" if self.payload is None else repr(self.payload)
        return self.name + k + p


def R(x):
    while isinstance(x, ESym) and x.alias is not None:
        x = x.alias
    return x


def is_expr(x):
    return isinstance(x, ESym) or (isinstance(x, Adt) and x.n == EXPR)


def strip(x):
    while True:
        if isinstance(x, Ref):
            x = x.get()
        elif isinstance(x, BoxV):
            x = x.f[0]
        else:
            return x


def some(x):
    return Adt(OPTION, 1, [x])


def none():
    return Adt(OPTION, 0, [])


def ordv(c):
    return Adt(ORDERING, c + 1, [])


FLOATS = ("F64", "F32")
RANGES = {
    "Isize": (-(2**63), 2**63 - 1),
    "I64": (-(2**63), 2**63 - 1),
    "I32": (-(2**31), 2**31 - 1),
    "I16": (-(2**15), 2**15 - 1),
    "I8": (-(2**7), 2**7 - 1),
    "I128": (-(2**127), 2**127 - 1),
    "Usize": (0, 2**64 - 1),
    "U64": (0, 2**64 - 1),
    "U32": (0, 2**32 - 1),
    "U16": (0, 2**16 - 1),
    "U8": (0, 2**8 - 1),
    "U128": (0, 2**128 - 1),
    "BigUint": (0, None),
}


class Ctx:
    """everything that belongs to one trace partition"""

    def __init__(self, prefix, rnd=None):
        self.dec = list(prefix)  # list of [chosen, n]
        self.rnd = rnd
        self.ret = None
        self.pos = 0
        self.facts = tm.Facts()
        self.defs = {}
        self.kinds = {}
        self.n = 0
        self.steps = 0
        self.eqmemo = {}
        self.cmpmemo = {}
        self.diseq = []
        self.strmemo = {}
        self.sorted_pairs = []
        self.contract_memo = {}
        self.exact_eqs = []
        self.events = []
        self.trace = []
        self.syms = []
        self.mark = {}

    def choose(self, n, label=None):
        if n == 1:
            return 0
        if self.pos < len(self.dec):
            c = self.dec[self.pos][0]
        else:
            c = 0 if self.rnd is None else self.rnd.randrange(n)
            self.dec.append([c, n])
        self.pos += 1
        if label is not None:
            self.trace.append((label, c, n))
        return c

    def fresh(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)


def special_neg(v):
    return v if v == "nan" else (v[1:] if v[0] == "-" else "-" + v)


class Interp:
    MAXSTEPS = 30000  # per partition
    MAXDEPTH = 90

    def __init__(self, crate, models, rank=None):
        self.cr = crate
        self.models = models
        self.ctx = None
        self.rank = rank  # variant -> order key, or None when unknown
        self.contracts = {}  # def -> (name, spec)
        self.maxitems = 2
        self.maxpay = 2
        self.lens = None  # lengths of outermost input collections
        self.stack = []
        self.exprmode = "value"  # or "order": expression comparisons are analysed, not assumed
        self.unroll = 3
        self.touched = set()
        self.calls_seen = set()
        self.order_flip = False
        self.unordered = False
        self.maxdepth = 12
        self.std_unknown = {}
        self.tick = None
        self.inl_depth = 0
        self.inl_max = 1
        self.raw = False  # inputs may be built by hand: no canonical form assumed
        self.shapes = {}
        self.pair_pos = None
        self.inkinds = KINDS  # what the parts of the operands may be
        self.names = False  # note where the text of labels is looked into
        self.anyfloat = False  # real operands may be infinite or not a number

    # ------------------------------------------------------------ numbers
    def test(self, op, a, b):
        """decide or partition on a numeric comparison of two Nums"""
        sa, sb = a.t.op == "special", b.t.op == "special"
        if sa or sb:
            return self.test_special(op, a.t, b.t)
        f = self.ctx.facts
        r = f.decide(op, a.t, b.t)
        if r is None:
            c = self.ctx.choose(2, "%r %s %r" % (a.t, op, b.t))
            r = c == 0
            f.assume(op if r else tm.NEG[op], a.t, b.t)
        if r and op == "==" and a.ty not in FLOATS:
            self.ctx.exact_eqs.append((a.t, b.t))
        if (not r) and op == "!=" and a.ty not in FLOATS:
            self.ctx.exact_eqs.append((a.t, b.t))
        return r

    def test_special(self, op, a, b):
        def val(t):
            if t.op == "special":
                return float(t.args[0])
            if t.op == "c":
                return float(t.args[0])
            return None

        x, y = val(a), val(b)
        if x is None or y is None:
            # one side is an abstract finite number
            z = y if x is None else x
            if z != z:
                return op == "!="
            if z in (float("inf"), float("-inf")):
                x, y = (0.0, z) if x is None else (z, 0.0)
            else:
                u, v = (a, tm.ZERO) if x is None else (tm.ZERO, b)
                return self.test(op, Num("F64", u, True), Num("F64", v, True))
        return {"==": x == y, "!=": x != y, "<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[op]

    def cmp3(self, a, b):
        """-1/0/1"""
        f = self.ctx.facts
        if a.t.op == "special" or b.t.op == "special":
            if self.test_special("<", a.t, b.t):
                return -1
            if self.test_special(">", a.t, b.t):
                return 1
            if self.test_special("==", a.t, b.t):
                return 0
            return None
        opts = [o for o in ("<", "==", ">") if f.decide(o, a.t, b.t) is not False]
        if not opts:
            raise Infeasible()
        o = opts[self.ctx.choose(len(opts), "cmp %r %r" % (a.t, b.t))]
        if len(opts) > 1 or f.decide(o, a.t, b.t) is None:
            f.assume(o, a.t, b.t)
        if o == "==" and a.ty not in FLOATS:
            self.ctx.exact_eqs.append((a.t, b.t))
        return {"<": -1, "==": 0, ">": 1}[o]

    def special_bin(self, op, a, b):
        """floating point arithmetic with an infinity or a NaN: an abstract
        finite operand only matters through its sign (and its place around one)"""
        import math

        def rep(x, unit):
            t = x.t
            if t.op == "special":
                return float(t.args[0])
            if t.op == "c":
                return float(t.args[0])
            s = self.cmp3(x, Num(x.ty, tm.ZERO))
            if s == 0 or not unit:
                return float(s)
            m = self.cmp3(x, Num(x.ty, const(s)))
            return float(s) if m == 0 else s * (2.0 if m == s else 0.5)

        y = rep(b, op == "Log")
        x = rep(a, op in ("Pow", "Log"))
        try:
            if op in ("Add", "Sub", "Mul"):
                r = {"Add": x + y, "Sub": x - y, "Mul": x * y}[op]
            elif op == "Div":
                r = x / y if y else (math.nan if x != x or x == 0 else math.copysign(math.inf, x))
            elif op == "Rem":
                r = math.fmod(x, y) if y and abs(x) != math.inf else math.nan
            elif op == "Pow":
                if x == -math.inf and b.t.op != "special" and b.t.op != "c" and y:
                    odd = self.ctx.choose(2, "%r odd" % (b.t,)) == 1
                    y = y * (1.0 if odd else 2.0)
                r = math.pow(x, y)
            elif op == "Log":
                ln = lambda z: math.nan if z != z or z < 0 else (-math.inf if z == 0 else (math.inf if z == math.inf else math.log(z)))
                n, d = ln(x), ln(y)
                r = n / d if d else (math.nan if n != n or n == 0 else math.copysign(math.inf, n))
            else:
                raise Unsupported("%s on a special float" % op)
        except (ValueError, OverflowError):
            r = math.nan
        if r != r or abs(r) == math.inf:
            return Num(a.ty, tm.mk("special", "nan" if r != r else ("inf" if r > 0 else "-inf")), True)
        return Num(a.ty, const(Fraction(r)), True)

    def num_bin(self, op, a, b, where=None):
        ty = a.ty
        tnt = a.tnt or b.tnt or ty in FLOATS
        if a.t.op == "special" or b.t.op == "special":
            return self.special_bin(op, a, b)
        if op == "Add":
            t = add(a.t, b.t)
        elif op == "Sub":
            t = sub(a.t, b.t)
        elif op == "Mul":
            t = mul(a.t, b.t)
        elif op == "Div":
            if ty in FLOATS:
                t = div(a.t, b.t)
            else:
                if self.test("==", b, Num(b.ty, tm.ZERO)):
                    raise Panic("attempt to divide by zero", where, list(self.stack))
                t = tfn("idiv", a.t, b.t)
                f = self.ctx.facts
                f.integral.add(t)
        elif op == "Rem":
            if ty in FLOATS:
                return Num(ty, tfn("frem", a.t, b.t), True)
            if self.test("==", b, Num(b.ty, tm.ZERO)):
                raise Panic("attempt to calculate the remainder with a divisor of zero", where, list(self.stack))
            t = tfn("irem", a.t, b.t)
            self.ctx.facts.integral.add(t)
        else:
            raise Unsupported("operator " + op)
        return Num(ty, t, tnt)

    def in_range(self, n, ty):
        """partition on n fitting the machine type"""
        lo, hi = RANGES[ty]
        if lo is not None and not self.test(">=", n, Num(n.ty, const(lo))):
            return False
        if hi is not None and not self.test("<=", n, Num(n.ty, const(hi))):
            return False
        return True

    def concrete(self, n, what="count", lo=0, limit=None):
        """a machine integer as a Python int; symbolic ones are partitioned over 0..limit"""
        if n.t.op == "c":
            return int(n.t.args[0])
        limit = self.unroll if limit is None else limit
        for k in range(lo, limit + 1):
            if self.test("==", n, Num(n.ty, const(k))):
                return k
        raise Cut("%s beyond %d" % (what, limit))

    # -------------------------------------------------------- expressions
    def sym(self, kinds=KINDS, inp=True, prefix="x", note=None):
        e = ESym(self.ctx.fresh(prefix), frozenset(kinds), inp, note)
        self.ctx.syms.append(e)
        return e

    def expr_int(self, t, tnt=False):
        return Adt(EXPR, INT, [Adt(SYM, 0, [Num("BigInt", t, tnt)])])

    def expr_real(self, t):
        return Adt(EXPR, REAL, [Adt(SYM, 0, [Num("F64", t, True)])])

    def kindset(self, e):
        e = R(e)
        if isinstance(e, ESym):
            return e.kinds
        return frozenset([e.v])

    def restrict(self, e, kinds):
        e = R(e)
        if not isinstance(e, ESym):
            if e.v not in kinds:
                raise Infeasible()
            return
        k = e.kinds & kinds
        if not k:
            raise Infeasible()
        if k == e.kinds:
            return
        was = len(e.kinds)
        e.kinds = k
        if len(k) == 1 and was > 1:
            self.determined(e, next(iter(k)))
        if self.rank is not None:
            self.narrow_order(e)

    def narrow_order(self, e):
        rk = self.rank
        for a, b in self.ctx.sorted_pairs:
            a, b = R(a), R(b)
            if a is not e and b is not e:
                continue
            ka, kb = self.kindset(a), self.kindset(b)
            lo = min(rk[k] for k in ka)
            hi = max(rk[k] for k in kb)
            if isinstance(b, ESym):
                nk = frozenset(k for k in kb if rk[k] >= lo)
                if not nk:
                    raise Infeasible()
                if nk != kb:
                    self.restrict(b, nk)
            elif max(rk[k] for k in kb) < lo:
                raise Infeasible()
            if isinstance(a, ESym):
                nk = frozenset(k for k in ka if rk[k] <= hi)
                if not nk:
                    raise Infeasible()
                if nk != ka:
                    self.restrict(a, nk)
            elif min(rk[k] for k in ka) > hi:
                raise Infeasible()

    def determined(self, e, k):
        """the variant of a symbolic expression has become known"""
        f = self.ctx.facts
        if k == INT:
            self.ctx.kinds[e.name] = "int"
            f.integral.add(e.a)
            for o in self.ctx.eqmemo.get(e.name, ()):
                o2 = R(o)
                if isinstance(o2, ESym) and o2.kinds == frozenset([INT]) and o2 is not e:
                    f.assume("!=", e.a, o2.a)
        elif k == REAL:
            self.ctx.kinds[e.name] = "real"
        for role in (e.role,) + e.roles:
            if role is not None and e.alias is None:
                self.determined_in(e, k, role)

    def determined_in(self, e, k, role):
        f = self.ctx.facts
        kind = role[0]
        if kind == "mul":
            if k in NUMK:
                if k == INT:
                    f.assume("!=", e.a, tm.ZERO)
                    f.assume("!=", e.a, tm.ONE)
                else:
                    f.assume(">", e.a, tm.ZERO)
                    f.assume("!=", e.a, tm.ONE)
                for s in role[1]:
                    if R(s) is not e:
                        self.restrict(s, KINDS - {k})
        elif kind == "add":
            if k in NUMK:
                f.assume("!=" if k == INT else ">", e.a, tm.ZERO)
                for s in role[1]:
                    if R(s) is not e:
                        self.restrict(s, KINDS - {k})
        elif kind == "powbase":
            m = role[1]
            if k == INT:
                f.assume("!=", e.a, tm.ZERO)
                f.assume("!=", e.a, tm.ONE)
                self.restrict(m, KINDS - {REAL})
                if self.kindset(m) == frozenset([INT]):
                    self.assume_minus_one(m)
            elif k == REAL:
                f.assume("!=", e.a, tm.ZERO)
                f.assume("!=", e.a, tm.ONE)
                self.restrict(m, KINDS - NUMK)
        elif kind == "powexp":
            b = role[1]
            if k in NUMK:
                f.assume("!=", e.a, tm.ZERO)
                f.assume("!=", e.a, tm.ONE)
            if k == INT:
                if self.kindset(b) == frozenset([INT]):
                    self.assume_minus_one(e)
                elif REAL in self.kindset(b):
                    self.restrict(b, KINDS - {REAL})
            elif k == REAL:
                self.restrict(b, KINDS - NUMK)

    def assume_minus_one(self, e):
        e = R(e)
        f = self.ctx.facts
        t = self.val(e)
        d = f.decide("==", t, tm.MONE)
        if d is False:
            raise Infeasible()
        if d is None:
            f.assume("==", t, tm.MONE)

    def probe(self, ty, args):
        """what the crate's own constructor makes of the given parts"""
        r = self.shapes.get(ty)
        if r is None:
            fs = [f for f in self.cr.fns.values() if f.local and f.inst.endswith("::new") and f.blocks and (f.inst[: -len("::new")] == ty or f.inst[: -len("::new")].endswith("<impl %s>" % ty))]
            if len(fs) != 1:
                raise Unsupported("constructor of " + ty)
            con, self.contracts = self.contracts, {}
            try:
                r = self.call_fn(fs[0], args)
            finally:
                self.contracts = con
            self.shapes[ty] = r
        if not (isinstance(r, Adt) and r.n == ty):
            raise Unsupported("representation of " + ty)
        return r

    def mk_ca(self, items):
        r = self.probe(CA, [Seq([])])
        if len(r.f) == 1 and isinstance(r.f[0], Heap):
            return Adt(CA, 0, [Heap(items, True)])
        if len(r.f) == 1 and isinstance(r.f[0], Seq):
            return Adt(CA, 0, [Seq(items)])
        raise Unsupported("collection representation changed")

    def pair_order(self):
        """positions of the argument and the modifier"""
        if self.pair_pos is None:
            x, y = self.expr_int(const(101)), self.expr_int(const(202))
            r = self.probe(AO, [x, y])
            if len(r.f) != 2:
                raise Unsupported("operation representation changed")
            v = []
            for z in r.f:
                z = strip(z)
                if not (isinstance(z, Adt) and z.n == EXPR and z.v == INT):
                    raise Unsupported("operation representation changed")
                v.append(int(z.f[0].f[0].t.args[0]))
            if sorted(v) != [101, 202]:
                # the constructor drops or repeats a part: the accessors decide
                v = [101, 202]
            self.pair_pos = (v.index(101), v.index(202))
        return self.pair_pos

    def mk_pair(self, x, y):
        i, j = self.pair_order()
        d = {i: BoxV(x), j: BoxV(y)}
        return Adt(AO, 0, [d[0], d[1]])

    def pair_parts(self, p):
        i, j = self.pair_order()
        return strip(p.f[i]), strip(p.f[j])

    def ca_items(self, p):
        x = p.f[0] if len(p.f) == 1 else None
        if isinstance(x, (Heap, Seq)):
            return x.items
        raise Unsupported("collection representation changed")

    def payload(self, e):
        """fields of a symbolic expression whose variant is known"""
        if e.payload is not None:
            return e.payload
        if len(e.kinds) != 1:
            raise Unsupported("payload of an undetermined expression")
        if e.name.count(".") >= self.maxdepth:
            raise Cut("nesting beyond %d" % self.maxdepth)
        k = next(iter(e.kinds))
        c = self.ctx
        if k == VAR:
            p = [Adt(SYM, 0, [StrV((("var", e.name),))])]
        elif k == REAL:
            p = [Adt(SYM, 0, [Num("F64", e.a, True)])]
        elif k == INT:
            p = [Adt(SYM, 0, [Num("BigInt", e.a)])]
        elif k in (MUL, ADD):
            if self.lens and e.inp and "." not in e.name:
                n = self.lens[c.choose(len(self.lens), "%s has n items" % e.name)]
            elif self.raw and e.inp:
                n = (2, 1, 3, 0)[c.choose(min(4, self.maxpay + 1), "%s has n items" % e.name)]
            else:
                n = 2 + c.choose(max(1, self.maxpay - 1), "%s has n items" % e.name)
            items = []
            for _ in range(n):
                items.append(ESym(c.fresh(e.name + "."), self.inkinds if self.raw and e.inp else self.inkinds - {k}, e.inp))
            for x in items:
                c.syms.append(x)
                if not (self.raw and e.inp):
                    x.role = ("mul" if k == MUL else "add", items)
            p = [self.mk_ca(items)]
            t = (mul if k == MUL else add)(*[x.a for x in items])
            self.define(e, t)
            if self.rank is not None:
                for i in range(len(items) - 1):
                    c.sorted_pairs.append((items[i], items[i + 1]))
        elif k in (POW, LOG):
            if k == POW:
                raw = self.raw and e.inp
                b = ESym(c.fresh(e.name + ".b"), self.inkinds if raw else self.inkinds - {POW}, e.inp)
                m = ESym(c.fresh(e.name + ".e"), self.inkinds, e.inp)
                if not raw:
                    b.role = ("powbase", m)
                    m.role = ("powexp", b)
                t = pow_(b.a, m.a)
            else:
                b = ESym(c.fresh(e.name + ".a"), self.inkinds, e.inp)
                m = ESym(c.fresh(e.name + ".b"), self.inkinds, e.inp)
                t = log_(b.a, m.a)
            c.syms += [b, m]
            p = [self.mk_pair(b, m)]
            self.define(e, t)
        else:
            b = ESym(c.fresh(e.name + ".a"), self.inkinds, e.inp)
            c.syms.append(b)
            if len(self.cr.adts[OP][0]["fields"]) != 1:
                raise Unsupported("operation representation changed")
            p = [Adt(OP, 0, [BoxV(b)])]
            self.define(e, tfn("sin" if k == SIN else "cos", b.a))
        e.payload = p
        return p

    def define(self, e, t):
        old = self.ctx.defs.get(e.name)
        if old is not None:
            self.ctx.facts.assume("==", old, t)
        self.ctx.defs[e.name] = t

    def fields(self, e):
        e = R(e)
        if isinstance(e, ESym):
            return self.payload(e)
        return e.f

    def val(self, e):
        """denotation term of an expression value"""
        e = R(strip(e))
        if isinstance(e, ESym):
            return e.a
        if not (isinstance(e, Adt) and e.n == EXPR):
            raise Unsupported("value of a non-expression")
        k = e.v
        p = e.f[0]
        if k == VAR:
            s = strip(p.f[0])
            if len(s.p) == 1 and isinstance(s.p[0], tuple):
                return atom(s.p[0][1])
            return atom("var:" + repr(s))
        if k in NUMK:
            return p.f[0].t
        if k == MUL:
            return mul(*[self.val(x) for x in self.ca_items(p)])
        if k == ADD:
            return add(*[self.val(x) for x in self.ca_items(p)])
        if k in (POW, LOG):
            a, b = self.pair_parts(p)
            return (pow_ if k == POW else log_)(self.val(a), self.val(b))
        return tfn("sin" if k == SIN else "cos", self.val(strip(p.f[0])))

    def contains(self, e, x, depth=0):
        e = R(strip(e))
        if e is x:
            return True
        if depth > 30:
            return False
        if isinstance(e, ESym):
            fs = e.payload
        else:
            fs = e.f
        if not fs:
            return False
        for f in fs:
            if isinstance(f, Adt):
                for g in f.f:
                    if isinstance(g, (Heap, Seq)):
                        if any(self.contains(i, x, depth + 1) for i in g.items):
                            return True
                    elif isinstance(g, BoxV):
                        if self.contains(g.f[0], x, depth + 1):
                            return True
        return False

    def expr_eq(self, x, y):
        """structural equality of two expressions (assumed to be what the
        crate's == computes; that is property C10's own obligation)"""
        x, y = R(strip(x)), R(strip(y))
        if x is y:
            return True
        kx, ky = self.kindset(x), self.kindset(y)
        if not (kx & ky):
            return False
        c = self.ctx
        if len(kx) == 1 and len(ky) == 1:
            k = next(iter(kx))
            if k in NUMK:
                ty = "BigInt" if k == INT else "F64"
                return self.test("==", Num(ty, self.val(x)), Num(ty, self.val(y)))
            xs = not isinstance(x, ESym) or x.payload is not None
            ys = not isinstance(y, ESym) or y.payload is not None
            if xs and ys:
                return self.payload_eq(k, self.fields(x), self.fields(y))
        # at least one side is not explored: partition
        if self.contains(x, y) or self.contains(y, x):
            return False
        key = (self.ident(x), self.ident(y))
        key2 = (key[1], key[0])
        if key in c.strmemo or key2 in c.strmemo:
            return False
        if c.choose(2, "%r == %r" % (x, y)) == 0:
            self.unify(x, y)
            return True
        c.strmemo[key] = True
        c.diseq.append((x, y))
        for a, b in ((x, y), (y, x)):
            if isinstance(a, ESym) and isinstance(b, ESym):
                c.eqmemo.setdefault(a.name, []).append(b)
        return False

    def ident(self, x):
        x = R(strip(x))
        if isinstance(x, ESym):
            return x.name
        return self.skey(x)

    def skey(self, x):
        """structural key of a value"""
        x = R(x)
        if isinstance(x, ESym):
            return x.name
        if isinstance(x, Num):
            return (x.ty, x.t.nid)
        if isinstance(x, Adt):
            return (x.n, x.v) + tuple(self.skey(f) for f in x.f)
        if isinstance(x, (Tup, BoxV)):
            return tuple(self.skey(f) for f in x.f)
        if isinstance(x, (Seq, Heap)):
            return ("[",) + tuple(self.skey(f) for f in x.items)
        if isinstance(x, Ref):
            return self.skey(x.get())
        if isinstance(x, StrV):
            return x.p
        if isinstance(x, bool) or x is None:
            return x
        return id(x)

    def payload_eq(self, k, fx, fy):
        a, b = fx[0], fy[0]
        if k == VAR:
            return self.str_eq(strip(a.f[0]), strip(b.f[0]))
        if k in (POW, LOG):
            a1, a2 = self.pair_parts(a)
            b1, b2 = self.pair_parts(b)
            return self.expr_eq(a1, b1) and self.expr_eq(a2, b2)
        if k in (MUL, ADD):
            ia, ib = self.sorted_items(a), self.sorted_items(b)
            if len(ia) != len(ib):
                return False
            # equality of multisets: items are kept in one canonical order
            rest = list(ib)
            for x in ia:
                for j, y in enumerate(rest):
                    if self.expr_eq(x, y):
                        del rest[j]
                        break
                else:
                    return False
            return True
        return self.expr_eq(strip(a.f[0]), strip(b.f[0]))

    def sorted_items(self, ca):
        x = ca.f[0]
        if isinstance(x, Heap):
            self.sort_heap(x)
        return self.ca_items(ca)

    def sort_heap(self, h):
        if h.srt:
            return
        h.srt = True
        h.items = self.sort_values(h.items)

    def sort_values(self, items):
        items = list(items)
        if not all(is_expr(R(x)) for x in items):
            raise Unsupported("sorting non-expressions")
        if self.rank is None:
            return items
        rk = self.rank

        def lohi(x):
            ks = self.kindset(x)
            return min(rk[k] for k in ks), max(rk[k] for k in ks)

        # stable insertion by certain kind order; numbers of one kind by value
        out = []
        for x in items:
            lo, hi = lohi(x)
            pos = len(out)
            while pos > 0:
                p = out[pos - 1]
                plo, phi = lohi(p)
                if hi < plo:
                    pos -= 1
                    continue
                if lo == hi == plo == phi and self.kindset(x) in (frozenset([INT]), frozenset([REAL])):
                    ty = "BigInt" if INT in self.kindset(x) else "F64"
                    if self.test("<", Num(ty, self.val(x)), Num(ty, self.val(p))):
                        pos -= 1
                        continue
                break
            out.insert(pos, x)
        for i in range(len(out) - 1):
            a, b = R(out[i]), R(out[i + 1])
            if isinstance(a, ESym) or isinstance(b, ESym):
                if lohi(a)[1] > lohi(b)[0]:
                    self.ctx.sorted_pairs.append((a, b))
                    for z in (a, b):
                        if isinstance(R(z), ESym):
                            self.narrow_order(R(z))
        return out

    def str_eq(self, a, b):
        if a.p == b.p:
            return True
        if all(isinstance(x, str) for x in a.p) and all(isinstance(x, str) for x in b.p):
            return "".join(a.p) == "".join(b.p)
        if self.exprmode == "order":
            x, y = self.str_ord(a), self.str_ord(b)
            if x is not None and y is not None:
                return self.test("==", x, y)
        key = (a.p, b.p)
        m = self.ctx.strmemo
        for k in (key, (b.p, a.p)):
            if k in m:
                return m[k]
        for x, y in ((a, b), (b, a)):
            if all(isinstance(z, str) for z in y.p) and any(isinstance(z, tuple) and z[0] in ("var", "strfn", "expr", "cut") for z in x.p):
                self.spied("%r is compared with a fixed text" % (x,))
        r = self.ctx.choose(2, "%r == %r" % (a, b)) == 0
        m[key] = r
        if r:
            va, vb = self.str_atom(a), self.str_atom(b)
            if va is not None and vb is not None:
                self.ctx.facts.assume("==", va, vb)
        return r

    def str_ord(self, s):
        """position of an abstract label in the label order"""
        if len(s.p) != 1 or not isinstance(s.p[0], tuple):
            return None
        p = s.p[0]
        if p[0] == "var":
            n = "ord:" + p[1]
            self.ctx.kinds[n] = "int"
            t = atom(n)
        elif p[0] == "strfn":
            x = self.str_ord(StrV((p[2],)))
            if x is None:
                return None
            t = tfn(p[1], x.t)
        else:
            return None
        self.ctx.facts.integral.add(t)
        return Num("Label", t)

    def str_atom(self, s):
        if len(s.p) == 1 and isinstance(s.p[0], tuple):
            return atom(s.p[0][1])
        return atom("var:" + repr(s))

    def unify(self, x, y):
        # y gets aliased to x; prefer keeping explored / input expressions
        def score(z):
            if not isinstance(z, ESym):
                return 3
            return (2 if z.payload is not None else 0) + (1 if z.inp else 0)

        if score(y) > score(x):
            x, y = y, x
        if not isinstance(y, ESym):
            raise Unsupported("unify")
        k = self.kindset(x) & self.kindset(y)
        ry = y.role
        if ry is not None and ry[0] in ("mul", "add") and any(R(s) is x for s in ry[1]):
            # two equal items of one collection: at most one item is a number of each kind
            k = k - NUMK
        if not k:
            raise Infeasible()
        self.restrict(y, k)
        self.restrict(x, k)
        if isinstance(x, ESym) and len(k) > 1 and (ry is not None or y.roles):
            x.roles = x.roles + ((ry,) if ry is not None else ()) + y.roles
        f = self.ctx.facts
        vx = self.val(x)
        if f.decide("==", vx, y.a) is False:
            raise Infeasible()
        f.assume("==", vx, y.a)
        y.alias = x if isinstance(x, ESym) else self.clone(x)
        for a, b in self.ctx.diseq:
            a, b = R(a), R(b)
            if a is b or (self.kindset(a) == self.kindset(b) and self.skey(a) == self.skey(b)):
                raise Infeasible()

    def expr_cmp(self, x, y):
        x, y = R(strip(x)), R(strip(y))
        if x is y:
            return 0
        if self.rank is not None:
            kx, ky = self.kindset(x), self.kindset(y)
            if max(self.rank[k] for k in kx) < min(self.rank[k] for k in ky):
                return -1
            if min(self.rank[k] for k in kx) > max(self.rank[k] for k in ky):
                return 1
            if len(kx) == 1 and kx == ky and next(iter(kx)) in NUMK:
                ty = "BigInt" if INT in kx else "F64"
                return self.cmp3(Num(ty, self.val(x)), Num(ty, self.val(y)))
        if self.expr_eq(x, y):
            return 0
        m = self.ctx.cmpmemo
        k = (self.ident(x), self.ident(y))
        if k in m:
            return m[k]
        if (k[1], k[0]) in m:
            return -m[(k[1], k[0])]
        r = -1 if self.ctx.choose(2, "%r < %r" % (x, y)) == 0 else 1
        m[k] = r
        return r

    # ------------------------------------------------------- generic values
    def clone(self, x):
        if isinstance(x, (ESym, Num, StrV, bool, FnV, Ref)):
            return x
        if isinstance(x, Adt):
            return Adt(x.n, x.v, [self.clone(f) for f in x.f])
        if isinstance(x, Tup):
            return Tup([self.clone(f) for f in x.f])
        if isinstance(x, Seq):
            return Seq([self.clone(f) for f in x.items])
        if isinstance(x, Heap):
            return Heap([self.clone(f) for f in x.items], x.srt)
        if isinstance(x, BoxV):
            return BoxV(self.clone(x.f[0]))
        if isinstance(x, MapV):
            m = MapV(x.isset, x.ordered)
            m.ents = [[self.clone(k), self.clone(v)] for k, v in x.ents]
            return m
        if isinstance(x, Clo):
            return Clo(x.fn, [self.clone(f) for f in x.f], x.name)
        if isinstance(x, It) and x.parts is not None:
            return x.parts()
        if x is None:
            return None
        raise Unsupported("clone of %s" % type(x).__name__)

    def tyname_of(self, x):
        """Rust type name of a value, for trait dispatch"""
        x = R(x)
        if isinstance(x, ESym):
            return EXPR
        if isinstance(x, Adt):
            if x.n == SYM:
                d = x.f[0]
                if isinstance(d, Num):
                    return SYM + ("<f64>" if d.ty == "F64" else "<num::BigInt>")
                return SYM + "<std::string::String>"
            return x.n
        return None

    def local_impl(self, trait, x, m):
        ty = self.tyname_of(x)
        if ty is None:
            return None
        l = self.cr.impl_m.get((trait, ty, m))
        return l[0] if l else None

    def eqv(self, a, b):
        a, b = R(strip(a)), R(strip(b))
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        if isinstance(a, Num):
            return self.test("==", a, b)
        if isinstance(a, StrV):
            return self.str_eq(a, b)
        if is_expr(a):
            if self.exprmode == "value":
                return self.expr_eq(a, b)
        f = self.local_impl("PartialEq", a, "eq")
        if f is not None:
            return self.call_fn(f, [Ref([a], 0), Ref([b], 0)])
        if isinstance(a, Adt):
            if a.v != b.v:
                return False
            return all(self.eqv(x, y) for x, y in zip(a.f, b.f))
        if isinstance(a, Tup):
            return all(self.eqv(x, y) for x, y in zip(a.f, b.f))
        if isinstance(a, (Seq, Heap)):
            if len(a.items) != len(b.items):
                return False
            return all(self.eqv(x, y) for x, y in zip(a.items, b.items))
        raise Unsupported("equality of %s" % type(a).__name__)

    def cmpv(self, a, b):
        """-1/0/1, None when unordered"""
        a, b = R(strip(a)), R(strip(b))
        if isinstance(a, bool):
            return (a > b) - (a < b)
        if isinstance(a, Num):
            return self.cmp3(a, b)
        if isinstance(a, StrV):
            if a.p == b.p:
                return 0
            if all(isinstance(x, str) for x in a.p + b.p):
                x, y = "".join(a.p), "".join(b.p)
                return (x > y) - (x < y)
            if self.exprmode == "order":
                x, y = self.str_ord(a), self.str_ord(b)
                if x is not None and y is not None:
                    return self.cmp3(x, y)
            if self.str_eq(a, b):
                return 0
            m = self.ctx.cmpmemo
            k = (a.p, b.p)
            if k in m:
                return m[k]
            if (b.p, a.p) in m:
                return -m[(b.p, a.p)]
            r = -1 if self.ctx.choose(2, "%r < %r" % (a, b)) == 0 else 1
            m[k] = r
            return r
        if is_expr(a) and self.exprmode == "value":
            return self.expr_cmp(a, b)
        f = self.local_impl("Ord", a, "cmp")
        if f is not None:
            return self.call_fn(f, [Ref([a], 0), Ref([b], 0)]).v - 1
        f = self.local_impl("PartialOrd", a, "partial_cmp")
        if f is not None:
            r = self.call_fn(f, [Ref([a], 0), Ref([b], 0)])
            return None if r.v == 0 else strip(r.f[0]).v - 1
        if isinstance(a, Adt) and a.n.startswith("std::cmp::Reverse"):
            r = self.cmpv(a.f[0], b.f[0])
            return None if r is None else -r
        if isinstance(a, Adt):
            if a.v != b.v:
                return -1 if a.v < b.v else 1
            for x, y in zip(a.f, b.f):
                c = self.cmpv(x, y)
                if c != 0:
                    return c
            return 0
        if isinstance(a, Tup):
            for x, y in zip(a.f, b.f):
                c = self.cmpv(x, y)
                if c != 0:
                    return c
            return 0
        if isinstance(a, Seq):
            for x, y in zip(a.items, b.items):
                c = self.cmpv(x, y)
                if c != 0:
                    return c
            return (len(a.items) > len(b.items)) - (len(a.items) < len(b.items))
        raise Unsupported("ordering of %s" % type(a).__name__)

    # ----------------------------------------------------------- execution
    def const_val(self, k):
        v = k["v"]
        return self.cval(v, k["ty"])

    def cval(self, v, ty):
        c = v["c"]
        t = self.cr.types[ty] if ty is not None else None
        if c == "int":
            if t is not None and t["k"] in ("int", "uint"):
                return Num(t["n"], const(int(v["v"])))
            return Num("Isize", const(int(v["v"])))
        if c == "bool":
            return v["v"]
        if c == "f64":
            import struct

            x = struct.unpack("<d", struct.pack("<Q", int(v["v"])))[0]
            if x == 0 and str(x) == "-0.0":
                return Num("F64", tm.mk("special", "-0.0") if self.exprmode == "order" else tm.ZERO, True)
            return Num("F64", const(x), True)
        if c == "str":
            return Ref([StrV((v["v"],) if v["v"] else ())], 0)
        if c == "char":
            return StrV((chr(v["v"]),))
        if c == "ref":
            inner = t["t"] if t is not None and t["k"] in ("ref", "ptr") else None
            return Ref([self.cval(v["v"], inner)], 0)
        if c == "unit":
            return Tup([])
        if c == "bytes":
            return Seq([Num("U8", const(x)) for x in v["v"]])
        if c == "array":
            el = t["t"] if t is not None and "t" in t else None
            return Seq([self.cval(x, el) for x in v["v"]])
        if c == "adt":
            tt = self.cr.types[v["ty"]]
            return Adt(tt["n"], v["var"], [self.cval(x, None) for x in v["v"]])
        if c in ("zst", "zty"):
            if c == "zty":
                t = self.cr.types[v["ty"]]
            if t["k"] == "closure":
                return Clo(t["fn"], [], t["n"])
            if t["k"] == "fndef":
                return FnV(t["t"])
            if t["k"] == "tuple":
                return Tup([])
            if t["k"] == "adt":
                return Adt(t["n"], 0, [])
            return Opq("zst")
        return Opq("const")

    def place(self, loc, p, for_write=False, mut=False):
        """(container, index) of a MIR place; a symbolic expression reached for
        mutation is first replaced by an explicit copy of its explored variant"""
        c, i = loc, p[0]
        variant = None
        for e in p[1]:
            k = e[0]
            if k == "d":
                x = c[i]
                if isinstance(x, Ref):
                    c, i = x.c, x.i
                elif isinstance(x, BoxV):
                    c, i = x.f, 0
                elif isinstance(x, Opq):
                    raise Unsupported("dereference of an untracked value (%s)" % x.why)
                else:
                    pass  # &str and friends: transparent
                variant = None
            elif k == "f":
                x = R(c[i])
                if x is None:
                    # MaybeUninit / ManuallyDrop wrappers are transparent
                    continue
                t = self.cr.types[e[2]]
                if (mut or for_write) and isinstance(c[i], ESym) and is_expr(x):
                    if isinstance(x, ESym):
                        if variant is not None:
                            self.restrict(x, frozenset([variant]))
                        x = Adt(EXPR, next(iter(x.kinds)), [self.clone(z) for z in self.payload(x)])
                    else:
                        x = Adt(x.n, x.v, [self.clone(z) for z in x.f])
                    c[i] = x
                if isinstance(x, ESym):
                    if variant is not None:
                        self.restrict(x, frozenset([variant]))
                    c, i = self.payload(x), e[1]
                elif isinstance(x, (Adt, Tup, Clo)):
                    c, i = x.f, e[1]
                    if i >= len(c):
                        if for_write:
                            while len(c) <= i:
                                c.append(None)
                        else:
                            raise Unsupported("field %d of %r" % (i, x))
                elif isinstance(x, BoxV):
                    pass
                elif isinstance(x, Ref) and t["k"] in ("ptr", "adt"):
                    pass
                else:
                    raise Unsupported("field of %s" % type(x).__name__)
                variant = None
            elif k == "v":
                variant = e[1]
            elif k == "i":
                s = strip(c[i])
                n = loc[e[1]]
                if not isinstance(s, Seq):
                    raise Unsupported("index of %s" % type(s).__name__)
                c, i = s.items, self.concrete(n, "index", 0, len(s.items))
            elif k == "ci":
                s = strip(c[i])
                if not isinstance(s, Seq):
                    raise Unsupported("index of %s" % type(s).__name__)
                c, i = s.items, (len(s.items) - e[1] if e[3] else e[1])
            elif k == "ss":
                s = strip(c[i])
                hi = len(s.items) - e[2] if e[3] else e[2]
                c, i = [Seq(s.items[e[1] : hi])], 0
            else:
                pass
        return c, i

    def operand(self, loc, o):
        k = o[0]
        if k == "k":
            return self.const_val(o[1])
        if k == "rc":
            return False
        p = o[1]
        if not p[1]:
            x = loc[p[0]]
            if x is None:
                raise Unsupported("read of an unset local")
            if k == "c" and isinstance(x, (Adt, Tup, Seq)):
                return self.clone(x)
            return x
        c, i = self.place(loc, p, mut=k == "m")
        try:
            x = c[i]
        except IndexError:
            raise Unsupported("out of bounds read")
        if x is None:
            raise Unsupported("read of an unset place")
        if k == "c" and isinstance(x, (Adt, Tup, Seq)):
            return self.clone(x)
        return x

    def binop(self, op, a, b, where):
        if isinstance(a, Opq) or isinstance(b, Opq):
            return Opq("op")
        if isinstance(a, tuple):
            a = self.disc_of(a[1])
        if isinstance(b, tuple):
            b = self.disc_of(b[1])
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            if isinstance(a, bool) or isinstance(b, bool):
                return {"Eq": a == b, "Ne": a != b, "Lt": a < b, "Le": a <= b, "Gt": a > b, "Ge": a >= b}[op]
            a2, b2 = a, b
            if isinstance(a2, StrV):
                r = self.str_eq(a2, b2)
                return r if op == "Eq" else not r
            if not isinstance(a2, Num) or not isinstance(b2, Num):
                raise Unsupported("comparison of %s" % type(a2).__name__)
            return self.test({"Eq": "==", "Ne": "!=", "Lt": "<", "Le": "<=", "Gt": ">", "Ge": ">="}[op], a2, b2)
        if op in ("BitAnd", "BitOr", "BitXor") and isinstance(a, bool):
            return {"BitAnd": a and b, "BitOr": a or b, "BitXor": a != b}[op]
        if op == "Cmp":
            return ordv(self.cmp3(a, b))
        if not isinstance(a, Num):
            raise Unsupported("arithmetic on %s" % type(a).__name__)
        if op in ("BitAnd", "Shl", "Shr", "ShlUnchecked", "ShrUnchecked"):
            return self.bits(op[:6] if op == "BitAnd" else op[:3], a, b)
        op = op.replace("Unchecked", "").replace("Wrapping", "")
        return self.num_bin(op, a, b, where)

    def rvalue(self, fn, loc, r, line):
        k = r[0]
        if k == "use":
            return self.operand(loc, r[1])
        if k in ("ref", "reborrow"):
            p = r[1]
            c, i = self.place(loc, p, mut=bool(r[2]))
            if isinstance(i, int) and p[1] and p[1][-1][0] in ("i", "ci") and i >= len(c):
                raise Unsupported("out of bounds reference")
            return Ref(c, i)
        if k == "addr":
            c, i = self.place(loc, r[1])
            return Ref(c, i)
        if k == "agg":
            ak = r[1][0]
            ops = [self.operand(loc, o) for o in r[2]]
            if ak == "array":
                return Seq(ops)
            if ak == "tuple":
                return Tup(ops)
            if ak == "adt":
                return Adt(r[1][1], r[1][2], ops)
            if ak == "closure":
                return Clo(r[1][2], ops, r[1][1])
            raise Unsupported("aggregate " + ak)
        if k == "bin":
            return self.binop(r[1], self.operand(loc, r[2]), self.operand(loc, r[3]), (fn, line))
        if k == "chk":
            a, b = self.operand(loc, r[2]), self.operand(loc, r[3])
            x = self.num_bin(r[1], a, b, (fn, line))
            ok = self.in_range(x, x.ty) if x.ty in RANGES else True
            return Tup([x, not ok])
        if k == "un":
            a = self.operand(loc, r[2])
            if r[1] == "Not":
                if isinstance(a, bool):
                    return not a
                if isinstance(a, Opq):
                    return a
                raise Unsupported("bitwise not")
            if r[1] == "Neg":
                if a.t.op == "special":
                    return Num(a.ty, tm.mk("special", special_neg(a.t.args[0])), True)
                return Num(a.ty, neg(a.t), a.tnt)
            if r[1] == "PtrMetadata":
                s = strip(a)
                if isinstance(s, Seq):
                    return Num("Usize", const(len(s.items)))
            raise Unsupported("unary " + r[1])
        if k == "cast":
            a = self.operand(loc, r[2])
            ck = r[1]
            if isinstance(a, Num) and ck.split("(")[0] in ("IntToInt", "IntToFloat", "FloatToInt", "FloatToFloat"):
                to = self.cr.types[r[3]]["n"] if "n" in self.cr.types[r[3]] else self.cr.types[r[3]]["k"]
                return self.cast(a, to)
            if isinstance(a, bool):
                to = self.cr.types[r[3]].get("n", "Isize")
                return Num(to, const(1 if a else 0))
            return a
        if k == "disc":
            c, i = self.place(loc, r[1])
            x = R(c[i])
            if isinstance(x, (ESym, Adt)):
                return ("disc", x)
            if isinstance(x, bool):
                return Num("U8", const(int(x)))
            if isinstance(x, BoxV):
                return ("disc", R(x.f[0]))
            raise Unsupported("discriminant of %s" % type(x).__name__)
        if k == "len":
            c, i = self.place(loc, r[1])
            return Num("Usize", const(len(strip(c[i]).items)))
        if k == "repeat":
            x = self.operand(loc, r[1])
            return Seq([self.clone(x) for _ in range(int(r[2]))])
        raise Unsupported("rvalue " + k)

    def cast(self, a, to):
        if to in FLOATS:
            return self.to_float(a, to)
        if a.ty in FLOATS:
            if to in RANGES and a.t.op != "special":
                # the conversion saturates
                lo, hi = RANGES[to]
                if hi is not None and self.test(">", a, Num(a.ty, const(hi))):
                    return Num(to, const(hi), True)
                if lo is not None and self.test("<", a, Num(a.ty, const(lo))):
                    return Num(to, const(lo), True)
            elif to in RANGES:
                x = a.t.args[0]
                lo, hi = RANGES[to]
                return Num(to, const({"inf": hi, "-inf": lo}.get(x, 0)), True)
            return Num(to, tfn("trunc", a.t), True)
        if to in RANGES:
            if not self.in_range(a, to):
                return self.wrapped(a, to)
        return Num(to, a.t, a.tnt)

    def bits(self, op, a, b):
        """masks of the lowest bits and shifts by a known distance"""
        if b.t.op != "c" and op == "BitAnd":
            a, b = b, a
        if b.t.op != "c" or a.ty in FLOATS:
            raise Unsupported("bit operation")
        k = int(b.t.args[0])
        if op == "BitAnd" and k >= 0 and k & (k + 1) == 0:
            t = tfn("fmod", a.t, const(k + 1))
        elif op == "Shr" and 0 <= k < 4096:
            t = tfn("fdiv", a.t, const(2**k))
        elif op == "Shl" and 0 <= k < 4096:
            r = Num(a.ty, mul(a.t, const(2**k)), a.tnt)
            return r if a.ty not in RANGES or self.in_range(r, a.ty) else self.wrapped(r, a.ty)
        else:
            raise Unsupported("bit operation")
        self.ctx.facts.integral.add(t)
        return Num(a.ty, t, a.tnt)

    def wrapped(self, a, to):
        """what is left of a number outside the range of a machine type"""
        if "wrap." + to not in tm.FNS:
            raise Unsupported("wrapping to " + to)
        t = tfn("wrap." + to, a.t)
        self.ctx.facts.integral.add(t)
        return Num(to, t, a.tnt)

    def to_float(self, a, to="F64"):
        """conversions count as exact except where order and equality are judged"""
        if self.exprmode == "order" and a.ty not in FLOATS and a.t.op != "special":
            return Num(to, tfn("tof64", a.t), True)
        return Num(to, a.t, True)

    def disc_of(self, x):
        """discriminant as a Num (partitions a symbolic expression completely)"""
        x = R(x)
        if isinstance(x, ESym):
            ks = sorted(x.kinds)
            k = ks[self.ctx.choose(len(ks), "kind of %s" % x.name)]
            self.restrict(x, frozenset([k]))
            d = self.cr.adts[EXPR][k]["disc"]
        else:
            vs = self.cr.adts.get(x.n)
            d = vs[x.v]["disc"] if vs else str(x.v)
        d = int(d)
        return Num("Isize", const(d))

    def switch(self, d, targets, other):
        if isinstance(d, tuple):
            x = R(d[1])
            if isinstance(x, ESym) and len(x.kinds) > 1:
                discs = {int(v["disc"]): i for i, v in enumerate(self.cr.adts[EXPR])}
                groups = {}
                order = []
                seen = set()
                for v, bb in targets:
                    k = discs.get(int(v))
                    if k is None:
                        continue
                    seen.add(k)
                    if k in x.kinds:
                        if bb not in groups:
                            groups[bb] = set()
                            order.append(bb)
                        groups[bb].add(k)
                rest = x.kinds - seen
                if rest:
                    if other not in groups:
                        groups[other] = set()
                        order.append(other)
                    groups[other] |= rest
                bb = order[self.ctx.choose(len(order), ("kind", x.name, [sorted(groups[b]) for b in order]))]
                self.restrict(x, frozenset(groups[bb]))
                return bb
            d = self.disc_of(x)
        if isinstance(d, bool):
            v = 1 if d else 0
            for tv, bb in targets:
                if int(tv) == v:
                    return bb
            return other
        if isinstance(d, StrV):
            for tv, bb in targets:
                if self.str_eq(d, StrV((chr(int(tv)),))):
                    return bb
            return other
        if isinstance(d, Num):
            if d.t.op == "c":
                v = int(d.t.args[0])
                for tv, bb in targets:
                    tv = int(tv)
                    if tv == v or (v < 0 and tv in (v + 2**8, v + 2**16, v + 2**32, v + 2**64, v + 2**128)):
                        return bb
                return other
            signed = d.ty.startswith("I")
            bits = {"I8": 8, "I16": 16, "I32": 32, "I64": 64, "Isize": 64, "I128": 128}.get(d.ty)
            for tv, bb in targets:
                tv = int(tv)
                if signed and bits and tv >= 2 ** (bits - 1):
                    tv -= 2**bits
                if self.test("==", d, Num(d.ty, const(tv))):
                    return bb
            return other
        raise Unsupported("switch on %s" % type(d).__name__)

    def recset(self):
        """the crate's functions that can reach themselves"""
        r = getattr(self.cr, "recset", None)
        if r is None:
            r = self.cr.recset = mir.cyclic(self.cr)
        return r

    def endless(self, f, args, where):
        """a pure function entered again with the operands of an activation that
        has not returned repeats itself for ever"""
        key = tuple(self.skey(a) for a in args)
        for e in self.stack:
            if e[0] is f and e[2] == key:
                raise Panic("%s calls itself with the operands it was given, without end" % f.short, where or ((self.stack[-1][0], self.stack[-1][1])), [x[:2] for x in self.stack])
        return key

    def call_fn(self, f, args):
        if f.blocks is None:
            raise Unsupported("no body: " + f.inst)
        if len(self.stack) > self.MAXDEPTH:
            raise Cut("call depth")
        self.touched.add(f.id)
        if f.id in self.recset():
            key = self.endless(f, args, None)
        else:
            key = None
        loc = [None] * len(f.locals)
        for i, a in enumerate(args):
            loc[1 + i] = a
        if f.argc != len(args):
            raise Unsupported("arity of " + f.inst)
        self.stack.append([f, 0, key])
        top = self.stack[-1]
        bb = 0
        ctx = self.ctx
        ret = f.span[1] if f.span else 0
        try:
            while True:
                b = f.blocks[bb]
                for s in b["s"]:
                    ctx.steps += 1
                    if s[0] == "a":
                        top[1] = s[3]
                        v = self.rvalue(f, loc, s[2], s[3])
                        p = s[1]
                        if not p[1]:
                            loc[p[0]] = v
                            if p[0] == 0:
                                ret = s[3]
                        else:
                            c, i = self.place(loc, p, True)
                            self.store(c, i, v)
                    else:
                        c, i = self.place(loc, s[1])
                        x = c[i]
                        if isinstance(x, Adt):
                            x.v = s[2]
                        else:
                            raise Unsupported("set discriminant")
                if ctx.steps > self.MAXSTEPS:
                    raise Cut("steps")
                t = b["t"]
                top[1] = b["l"]
                k = t[0]
                if k == "goto":
                    bb = t[1]
                elif k == "switch":
                    bb = self.switch(self.operand(loc, t[1]), t[2], t[3])
                elif k == "return":
                    if f.local:
                        ctx.ret = (f, ret)
                    r = loc[0]
                    return UNIT if r is None else r
                elif k == "call":
                    args2 = [self.operand(loc, o) for o in t[2]]
                    v = self.call(t[1], args2, f, loc, b["l"])
                    if t[4] is None:
                        raise Panic("diverging call " + str(t[1].get("inst")), (f, b["l"]), list(self.stack))
                    p = t[3]
                    if not p[1]:
                        loc[p[0]] = v
                        if p[0] == 0:
                            ret = b["l"]
                    else:
                        c, i = self.place(loc, p, True)
                        self.store(c, i, v)
                    bb = t[4]
                elif k == "drop":
                    bb = t[2]
                elif k == "assert":
                    x = self.operand(loc, t[1])
                    if isinstance(x, Opq):
                        bb = t[4]
                        continue
                    if bool(x) != t[2]:
                        raise Panic(t[3], (f, b["l"]), [list(z) for z in self.stack])
                    bb = t[4]
                elif k == "unreachable":
                    raise Infeasible()
                else:
                    raise Unsupported("terminator " + k)
        except (Unsupported, Cut) as e:
            if not hasattr(e, "where"):
                e.where = "%s:%s" % (f.short, top[1])
            raise
        finally:
            self.stack.pop()

    def store(self, c, i, v):
        try:
            c[i] = v
        except IndexError:
            while len(c) < i:
                c.append(None)
            c.append(v)
        except TypeError:
            raise Unsupported("store")

    def call(self, t, args, f, loc, line):
        if "dynop" in t:
            g = self.operand(loc, t["dynop"])
            return self.invoke(g, args, (f, line))
        d = t["def"]
        fid = t.get("fn")
        g = self.cr.fns.get(fid) if fid is not None else None
        key = t.get("key") or self.key(t)
        if g is not None and g.local and key not in CALLS:
            return self.call_local(g, args, (f, line))
        m = self.models.get(key)
        if self.names and args:
            self.named(key, args)
        if m is not None:
            return m(self, args, t, (f, line))
        if g is not None:
            return self.call_fn(g, args)
        self.std_unknown[d] = self.std_unknown.get(d, 0) + 1
        raise Unsupported("std call " + d)

    INSPECT = frozenset(
        "len is_empty chars bytes char_indices starts_with ends_with contains find rfind split rsplit splitn rsplitn split_once rsplit_once split_at split_whitespace split_terminator lines matches match_indices get "
        "get_unchecked index strip_prefix strip_suffix trim trim_start trim_end trim_matches trim_start_matches trim_end_matches parse from_str eq_ignore_ascii_case is_char_boundary is_ascii as_bytes into_bytes truncate pop remove "
        "to_lowercase to_uppercase to_ascii_lowercase to_ascii_uppercase find_map".split()
    )

    def named(self, key, args):
        """the text of a label (or of an expression) is looked into"""
        n = key.split("::")
        if n[-1] not in self.INSPECT:
            return
        x = strip(args[0])
        if isinstance(x, StrV) and any(isinstance(z, tuple) and z[0] in ("var", "strfn", "expr", "cut") for z in x.p):
            self.spied("%s of %r" % (n[-1], x))

    def spied(self, what):
        if self.names:
            at = next(((g, ln) for g, ln, _ in reversed([tuple(z) for z in self.stack]) if g.local), None)
            self.ctx.mark.setdefault("named", []).append((what, at))

    def key(self, t):
        from mir import key_of

        k = key_of(t["def"])
        t["key"] = k
        return k

    def call_local(self, g, args, where):
        key = g.name
        if self.exprmode == "value":
            sp = self.spec_methods.get(g.id)
            if sp == "eq":
                return self.expr_eq(args[0], args[1])
            if sp == "cmp":
                return ordv(self.expr_cmp(args[0], args[1]))
            if sp == "partial_cmp":
                return some(ordv(self.expr_cmp(args[0], args[1])))
            if sp == "clone":
                return self.clone(strip(args[0]))
        ct = self.contracts.get(g.id)
        if ct is not None and self.stack:
            if g.id in self.recset():
                self.endless(g, args, where)
            if not ct.inline(self, args):
                return ct.apply(self, args, where)
            self.inl_depth += 1
            try:
                return self.call_fn(g, args)
            finally:
                self.inl_depth -= 1
        hook = getattr(self, "hooks", None)
        if hook:
            h = hook.get(g.id)
            if h is not None:
                return h(self, g, args, where)
        return self.call_fn(g, args)

    spec_methods = {}

    def invoke(self, g, args, where=None):
        """call a closure / fn item / reference to one; args is the argument list"""
        g = strip(g)
        if isinstance(g, PyFn):
            return g.f(self, list(args[0].f) if len(args) == 1 and isinstance(args[0], Tup) else list(args))
        if isinstance(g, Clo):
            f = self.cr.fns.get(g.fn)
            if f is None:
                raise Unsupported("closure body")
            # first argument is the closure itself, by reference or by value
            t = self.cr.types[f.locals[1]]
            first = Ref([g], 0) if t["k"] in ("ref", "ptr") else g
            if f.spread is not None:
                return self.call_fn(f, [first, Tup(list(args))])
            if f.argc == 1 + len(args):
                return self.call_fn(f, [first] + list(args))
            if f.argc == 2:
                return self.call_fn(f, [first, Tup(list(args))])
            raise Unsupported("closure arity")
        if isinstance(g, FnV):
            t = g.target
            fid = t.get("fn")
            h = self.cr.fns.get(fid) if fid is not None else None
            if h is not None and h.local:
                return self.call_local(h, list(args), where)
            m = self.models.get(self.key(t))
            if m is not None:
                return m(self, list(args), t, where)
            if h is not None:
                return self.call_fn(h, list(args))
            # enum / struct constructors used as functions
            ctor = self.ctor(t["def"])
            if ctor is not None:
                return Adt(ctor[0], ctor[1], list(args))
            raise Unsupported("function value " + t["def"])
        raise Unsupported("call of %s" % type(g).__name__)

    def ctor(self, name):
        base, _, var = name.rpartition("::")
        vs = self.cr.adts.get(base)
        if vs:
            for i, v in enumerate(vs):
                if v["name"] == var:
                    return base, i
        vs = self.cr.adts.get(name)
        if vs and len(vs) == 1:
            return name, 0
        return None


# ------------------------------------------------------------- exploration
class Path:
    __slots__ = ("kind", "value", "ctx", "args", "exc", "stack")


def snapshot(x, memo):
    k = id(x)
    if k in memo:
        return memo[k][0]
    if isinstance(x, list):
        y = []
        memo[k] = (y, x)
        y.extend(snapshot(z, memo) for z in x)
    elif isinstance(x, (Seq, Heap)):
        y = Seq(None) if isinstance(x, Seq) else Heap(None, x.srt)
        memo[k] = (y, x)
        y.items = snapshot(x.items, memo)
    elif isinstance(x, Adt):
        y = Adt(x.n, x.v, None)
        memo[k] = (y, x)
        y.f = snapshot(x.f, memo)
    elif isinstance(x, Tup):
        y = Tup(None)
        memo[k] = (y, x)
        y.f = snapshot(x.f, memo)
    elif isinstance(x, Ref):
        y = Ref(None, x.i)
        memo[k] = (y, x)
        y.c = snapshot(x.c, memo)
    else:
        return x
    return y


def explore(I, setup, run, maxpaths=20000, deadline=None, on_path=None, rnd=None):
    """enumerate all trace partitions of run(args); setup builds the abstract
    arguments inside the fresh context.  Returns statistics."""
    import random
    import time

    r = random.Random(rnd) if rnd is not None else None
    prefix = []
    st = {"paths": 0, "done": 0, "panics": 0, "undecided": 0, "cut": 0, "infeasible": 0, "exhausted": True, "why": {}}
    while True:
        ctx = Ctx(prefix, r)
        I.ctx = ctx
        I.stack = []
        I.inl_depth = 0
        p = Path()
        p.ctx, p.exc, p.value, p.args = ctx, None, None, None
        try:
            args = setup(I)
            # what the arguments were: the code may change the ones it owns
            p.args = snapshot(args, {})
            p.value = run(I, args)
            p.kind = "return"
            st["done"] += 1
        except Infeasible:
            p.kind = "infeasible"
            st["infeasible"] += 1
        except Panic as e:
            p.kind = "panic"
            p.exc = e
            st["panics"] += 1
        except Unsupported as e:
            p.kind = "undecided"
            p.exc = e
            st["undecided"] += 1
            w = "%s @ %s" % (e, getattr(e, "where", "?"))
            st["why"][w] = st["why"].get(w, 0) + 1
        except Cut as e:
            p.kind = "cut"
            p.exc = e
            st["cut"] += 1
            w = "cut: %s" % e
            st["why"][w] = st["why"].get(w, 0) + 1
        except RecursionError as e:
            p.kind = "cut"
            p.exc = e
            st["cut"] += 1
        st["paths"] += 1
        I.stack = []
        if on_path is not None and p.kind != "infeasible":
            if on_path(p) == "stop":
                st["exhausted"] = False
                return st
        if r is not None:
            if st["paths"] >= maxpaths or (deadline is not None and time.time() > deadline):
                return st
            continue
        dec = ctx.dec[: ctx.pos] if ctx.pos < len(ctx.dec) else ctx.dec
        while dec and dec[-1][0] + 1 >= dec[-1][1]:
            dec.pop()
        if not dec:
            return st
        dec[-1] = [dec[-1][0] + 1, dec[-1][1]]
        prefix = [list(d) for d in dec]
        if st["paths"] >= maxpaths or (deadline is not None and time.time() > deadline):
            st["exhausted"] = False
            return st
