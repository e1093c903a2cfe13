"""Properties of whole manipulations on schematic inputs (calls are followed into
the constructors and rules): like terms, full distribution, determinism."""
import lens
import terms as tm
from interp import *
from spec import ex, CONSTRUCT
from terms import const
from verdict import Direct, Finding, Ob, could, reach, result_value
from props import Anchor, api, build_arg, reachable, rule_fns
from props2 import alike, same_rule

VARK, INTK, REALK = frozenset([VAR]), frozenset([INT]), frozenset([REAL])


class B:
    """builds schematic inputs with the crate's own public constructors"""

    def __init__(self, cr):
        self.cr = cr

    def f(self, I, n, *a):
        return I.call_fn(api(self.cr, EXPR, n), list(a))

    def var(self, I):
        return I.sym(VARK, inp=True, prefix="a")

    def int(self, I):
        return ex(I, INTK)

    def real(self, I):
        return ex(I, REALK)

    def lit(self, I, k):
        return Adt(EXPR, INT, [Adt(SYM, 0, [Num("BigInt", const(k))])])

    def add(self, I, *x):
        return self.f(I, "addition", Seq(list(x)))

    def mul(self, I, *x):
        return self.f(I, "multiplication", Seq(list(x)))

    def pow(self, I, x, y):
        return self.f(I, "power", x, y)

    def log(self, I, x, y):
        return self.f(I, "logarithm", x, y)

    def div(self, I, x, y):
        return self.f(I, "division", x, y)

    def sub(self, I, x, y):
        return self.f(I, "subtraction", x, y)


# little language for schematic inputs: lower case letters are variables, n m k
# ... integer unknowns (N0, N1, ...), R0.. real unknowns, numbers literals
def scheme(b, tree, distinct=False):
    def go(I, env, t):
        if isinstance(t, int):
            return b.lit(I, t)
        if isinstance(t, str):
            if t not in env:
                env[t] = b.int(I) if t[0] == "N" else b.real(I) if t[0] == "R" else b.var(I)
            return env[t]
        op, xs = t[0], [go(I, env, x) for x in t[1:]]
        return {"+": b.add, "*": b.mul, "^": b.pow, "log": b.log, "/": b.div, "-": b.sub}[op](I, *xs)

    def names(t, out):
        if isinstance(t, str):
            if t not in out:
                out.append(t)
        elif not isinstance(t, int):
            for x in t[1:]:
                names(x, out)
        return out

    def divisors(t, out):
        if isinstance(t, tuple):
            if t[0] == "/":
                out += [n for n in names(t[2], []) if n[0] in "NR" and n not in out]
            for x in t[1:]:
                divisors(x, out)
        return out

    order = names(tree, [])
    below = divisors(tree, [])

    def mk(I):
        env = {}
        for n in order:
            go(I, env, n)
        I.ctx.mark["env"] = env
        for n in below:
            # dividing by the number zero is outside the domain
            t = I.val(env[n])
            if I.ctx.facts.decide("!=", t, tm.ZERO) is not True:
                I.ctx.facts.assume("!=", t, tm.ZERO)
        if distinct:
            # different letters are different variables
            vs = [R(env[n]) for n in order if n[0] not in "NR"]
            for i, u in enumerate(vs):
                for v in vs[:i]:
                    I.ctx.strmemo[(u.name, v.name)] = True
                    I.ctx.diseq.append((u, v))
        return go(I, env, tree)

    return mk


def letters(t, out=None):
    """the variables of a scheme, in order of appearance"""
    out = [] if out is None else out
    if isinstance(t, str):
        if t not in out and t[0] not in "NR":
            out.append(t)
    elif isinstance(t, tuple):
        for x in t[1:]:
            letters(x, out)
    return out


def put(t, env):
    if isinstance(t, str):
        return env.get(t, t)
    if isinstance(t, tuple):
        return (t[0],) + tuple(put(x, env) for x in t[1:])
    return t


def merged(xs):
    """the partitions of a list into blocks, the finest first"""
    if not xs:
        return [[]]
    out = []
    for p in merged(xs[1:]):
        out.append([[xs[0]]] + p)
        for i in range(len(p)):
            out.append(p[:i] + [[xs[0]] + p[i]] + p[i + 1 :])
    return sorted(out, key=lambda p: -len(p))


def patterns(trees, cap):
    """every scheme under every way its letters may coincide (merging at most two
    letters in schemes with more than cap letters), named from a upwards, once each"""
    out, seen = [], set()
    for t in trees:
        v = letters(t)
        for p in merged(v):
            if len(v) > cap and len(p) < len(v) - 1:
                continue
            u = put(t, {x: b[0] for b in p for x in b})
            u = put(u, {x: "abcdefghijklmnop"[i] for i, x in enumerate(letters(u))})
            if u not in seen:
                seen.add(u)
                out.append(u)
    return out


def text(t):
    if not isinstance(t, tuple):
        return str(t)
    if t[0] == "log":
        return "log(%s)" % ", ".join(text(x) for x in t[1:])
    return "(%s)" % ((" %s " % t[0]).join(text(x) for x in t[1:]))


# ------------------------------------------------------------- like terms
def same(I, p, x, y):
    x, y = R(strip(x)), R(strip(y))
    if I.skey(x) == I.skey(y):
        return True
    try:
        return alike(I, p, x, y) is None
    except Unsupported:
        return False


def same_all(I, p, xs, ys):
    ys = list(ys)
    if len(xs) != len(ys):
        return False
    for x in xs:
        for j, y in enumerate(ys):
            if same(I, p, x, y):
                del ys[j]
                break
        else:
            return False
    return True


def is_inverse(I, x):
    if I.kindset(x) != frozenset([POW]):
        return False
    b, m = map(R, I.pair_parts(I.fields(x)[0]))
    return I.kindset(b) == INTK and I.kindset(m) == INTK and I.val(m) is tm.MONE


def rationalish(I, x):
    ks = I.kindset(x)
    if ks == INTK or is_inverse(I, x):
        return True
    if ks == frozenset([MUL]):
        return all(rationalish(I, R(strip(z))) for z in I.ca_items(I.fields(x)[0]))
    return False


def core(I, x):
    """an addend without its integer coefficient"""
    if I.kindset(x) == frozenset([MUL]):
        fs = [R(strip(z)) for z in I.ca_items(I.fields(x)[0])]
        return [z for z in fs if I.kindset(z) != INTK]
    return [x]


def base_of(I, x):
    if I.kindset(x) == frozenset([POW]):
        return R(strip(I.pair_parts(I.fields(x)[0])[0]))
    return x


FRACTION = "a fraction that is not in lowest terms"


def unmerged(I, p, x):
    x = R(strip(x))
    if not (isinstance(x, Adt) and x.n == EXPR):
        return None
    k = x.v
    if k in (POW, LOG):
        for y in I.pair_parts(x.f[0]):
            r = unmerged(I, p, y)
            if r:
                return r
        return None
    if k not in (MUL, ADD):
        return None
    items = [R(strip(z)) for z in I.ca_items(x.f[0])]
    for z in items:
        r = unmerged(I, p, z)
        if r:
            return r
    if k == ADD:
        rat = [z for z in items if rationalish(I, z)]
        if len(rat) > 1:
            return "two rational numbers side by side in a sum"
        rest = [core(I, z) for z in items if not rationalish(I, z) and I.kindset(z) != REALK]
        for i, u in enumerate(rest):
            for v in rest[:i]:
                if same_all(I, p, u, v):
                    return "two addends of a sum are integer multiples of one expression"
        return None
    nums = [z for z in items if I.kindset(z) == INTK]
    dens = [z for z in items if is_inverse(I, z)]
    if len(nums) > 1 or len(dens) > 1:
        return "two rational numbers side by side in a product"
    if nums and dens:
        n, d = I.val(nums[0]), I.val(R(I.pair_parts(I.fields(dens[0])[0])[0]))
        if could(I, p, [("!=", tm.fn("gcd", n, d), tm.ONE)], 600):
            return FRACTION
    rest = [base_of(I, z) for z in items if not rationalish(I, z) and not I.kindset(z) <= NUMK]
    for i, u in enumerate(rest):
        for v in rest[:i]:
            if same(I, p, u, v):
                return "two factors of a product are powers of one expression"
    return None


def merge_rule(I, ob, p, hit, count):
    try:
        d = unmerged(I, p, p.value)
    except Unsupported:
        return count("unread result")
    if d is None or d == FRACTION and ob.opt.get("loose"):
        return count("merged")
    if not reach(I, p):
        return count("vacuous")
    count("unmerged")
    hit("like terms are collected", p, "simplifying %s: %s in %s" % (ob.opt["shown"], d, repr(strip(p.value))[:300]), (ob.fn, ob.fn.span[1]), key="simplify %s: %s" % (ob.opt["shown"], d))


SUMS = [
    ("+", ("*", "N0", "a"), ("*", "N1", "a")),
    ("+", "a", ("*", "N0", "a")),
    ("+", ("*", "N0", "a"), "b", ("*", "N1", "a")),
    ("+", ("*", "N0", "a"), ("*", "N1", "a"), ("*", "N2", "a")),
    ("+", "a", "b", "a"),
    ("+", "a", "b", "c", "a", "b"),
    ("+", "a", "b", "a", "b", "a"),
    ("-", "a", "a"),
    ("-", ("*", "N0", "a"), "a"),
    ("-", ("+", "a", "b"), ("+", "b", "a")),
    ("+", ("*", "a", "b"), ("*", "b", "a")),
    ("+", ("*", "N0", "a", "b"), ("*", "N1", "b", "a")),
    ("+", ("*", "a", "b"), ("*", "a", "c"), ("*", "b", "a")),
    ("+", ("*", "N0", ("^", "a", 2)), ("*", "N1", ("^", "a", 2))),
    ("+", ("^", "a", "N0"), ("^", "a", "N1")),
    ("+", ("*", "N0", ("^", "a", "b")), ("*", "N1", ("^", "a", "b"))),
    ("+", ("*", "N0", ("log", "a", "b")), ("*", "N1", ("log", "a", "b"))),
    ("+", ("*", ("^", "a", 2), "b", "N0"), ("*", "b", ("^", "a", 2))),
    ("+", "N0", "a", "N1", "a"),
    ("+", ("/", "N0", "N1"), ("/", "N2", "N3")),
    ("+", "N0", ("/", "N1", "N2"), "a"),
    ("+", ("/", "N0", "N1"), "a", "N2", ("*", 2, "a")),
    ("+", ("/", "N0", "N1"), ("/", "N2", "N3"), ("/", 1, "N4")),
    ("+", ("/", "N0", 6), ("/", "N1", 4)),
    ("+", ("*", ("/", 1, 2), "a"), ("*", ("/", 1, 2), "a")),
    ("+", ("*", "a", ("log", "b", "c")), ("*", "N0", "a", ("log", "b", "c"))),
    ("+", ("*", "a", ("^", "b", -1)), ("*", "a", ("^", "b", -1))),
    ("+", ("*", "N0", ("^", "a", -1)), ("*", "N1", ("^", "a", -1))),
    ("-", ("*", "N0", "a", "b"), ("*", "N1", "b", "a")),
    ("-", ("+", "a", ("*", 2, "b")), ("+", "b", ("*", 2, "a"))),
    ("+", ("*", -1, "a"), "a", "b"),
    ("+", ("*", "N0", "a"), ("*", "N1", "b"), ("*", "N2", "a"), ("*", "N3", "b")),
    ("+", ("*", "R0", "a"), ("*", "R0", "a")),
    ("+", ("*", "R0", "a", "b"), "c", ("*", "R0", "b", "a")),
    ("+", ("^", "a", "R0"), ("*", "N0", ("^", "a", "R0"))),
    ("+", ("*", "R0", ("^", "a", 2)), ("*", "R0", ("^", "a", 2)), "b"),
    ("+", "a", "a", "a", "a"),
    ("+", "a", "b", "c", "d", "a"),
]
PRODUCTS = [
    ("*", "a", "a"),
    ("*", "a", "b", "a"),
    ("*", "a", "b", "a", "b"),
    ("*", "a", "b", "c", "a", "c"),
    ("*", ("^", "a", "N0"), ("^", "a", "N1")),
    ("*", "a", ("^", "a", "N0")),
    ("*", ("^", "a", "N0"), "b", ("^", "a", "N1"), "b"),
    ("*", ("^", "a", "N0"), ("^", "a", "N1"), ("^", "a", "N2")),
    ("*", ("^", "a", "b"), ("^", "a", "c")),
    ("*", ("^", "a", "b"), "a", "N0"),
    ("*", ("log", "a", "b"), ("log", "a", "b")),
    ("/", "a", "a"),
    ("/", ("*", "a", "b"), "a"),
    ("/", ("^", "a", "N0"), ("^", "a", "N1")),
    ("*", ("/", "N0", "N1"), ("/", "N2", "N3")),
    ("*", ("/", "N0", "N1"), "a", "N2"),
    ("*", "N0", "a", ("/", 1, "N1"), "a"),
    ("*", ("+", "a", "b"), ("+", "a", "b")),
    ("*", ("+", "a", "b"), ("-", "a", "b")),
    ("^", ("+", "a", "b"), 2),
    ("*", ("^", ("+", "a", "b"), "c"), ("^", ("+", "a", "b"), "d")),
    ("*", ("/", "a", "b"), ("/", "b", "a")),
    ("*", ("/", "a", "b"), ("/", "c", "a")),
    ("*", ("^", "a", 2), ("^", "a", -1)),
    ("*", ("^", "a", -1), ("^", "a", -1)),
    ("*", ("^", "a", 2), ("^", "b", 3), ("^", "a", -2)),
    ("/", ("^", "a", "b"), "a"),
    ("/", ("*", "N0", "a"), ("*", "N1", "a")),
    ("/", ("/", "N0", "N1"), ("/", "N2", "N3")),
    ("^", ("/", "N0", "N1"), 2),
    ("*", "N0", ("/", 1, "N1"), ("/", "a", "N2")),
    ("*", ("^", ("log", "a", "b"), 2), ("log", "a", "b")),
    ("*", ("^", "a", ("*", 2, "b")), ("^", "a", "b")),
    ("*", ("^", "a", "R0"), "a"),
    ("*", "R0", "a", ("^", "a", 2)),
]
NESTED = [
    ("log", ("+", "a", "a"), ("*", "b", "b")),
    ("^", ("*", "a", "a"), ("+", "b", "b")),
    ("^", ("+", "a", "b", "a"), ("*", "c", "c")),
    ("*", "d", ("log", ("+", "a", "a"), "b")),
    ("+", "d", ("^", ("+", "a", "a"), ("+", "b", "b", "c"))),
    ("^", "a", ("log", ("+", "x", "x"), "b")),
    ("^", ("log", ("+", "a", "a"), "b"), "c"),
    ("log", "a", ("+", "b", "b")),
    ("log", ("log", ("+", "a", "a"), "b"), "c"),
    ("log", ("^", "a", ("+", "b", "b")), "c"),
    ("log", ("*", "d", ("+", "a", "a")), "c"),
    ("log", 2, ("+", "a", "a")),
    ("^", ("^", "a", ("+", "b", "b")), "c"),
    ("*", "d", ("^", ("+", "a", "a"), -1)),
    ("^", 2, ("+", "a", "a")),
    ("^", ("+", "a", "a"), "R0"),
    ("^", ("+", "a", "b", "a"), 2),
    ("+", "d", ("*", "e", ("log", ("+", "a", "a"), "b"))),
    ("+", "d", ("log", "b", ("*", "a", "a"))),
    ("/", "d", ("+", "a", "a")),
    ("/", ("+", "a", "a"), ("+", "b", "b")),
    ("^", ("+", "a", "a"), ("/", 1, 2)),
    ("^", "a", ("^", "b", ("^", "c", ("+", "d", "d")))),
    ("^", "a", ("*", "b", ("log", ("+", "c", "c"), "d"))),
    ("*", "a", ("^", "b", ("+", "c", "c"))),
    ("*", "a", ("log", ("*", "b", "b"), "c")),
    ("log", ("^", ("+", "a", "a"), ("log", ("*", "b", "b"), "c")), "d"),
]


def C22(cr, deep):
    b = B(cr)
    f = api(cr, EXPR, "simplify")
    out = []
    S, P, _ = lens.schemes(cr)
    for t in patterns(SUMS + PRODUCTS + NESTED, 2 if not deep else 3) + S + P:
        mk = scheme(b, t, True)
        o = dict(maxpaths=250, samples=60, seconds=20) if not deep else dict(maxpaths=8000, samples=1000, seconds=200)
        out.append(
            Ob("simplify %s" % text(t), f, lambda I: [], None, (merge_rule,), run=(lambda mk: lambda I, a: I.call_fn(f, [mk(I)]))(mk), follow=True, steps=400000, shown=text(t), **o)
        )
    for t in lens.nestings() + lens.deeper(60 if not deep else 300) + lens.chains(2 if not deep else 3):
        # (a + b)^2 / 2 has the known finding in it: half of ab twice
        o = few(deep)
        out.append(Ob("simplify %s" % text(t), f, lambda I: [], None, (merge_rule,), run=(lambda mk: lambda I, a: I.call_fn(f, [mk(I)]))(scheme(b, t, True)), follow=True, shown=text(t), loose=True, **o))
    return out


def flat(t):
    return [y for x in t for y in (flat(x) if isinstance(x, tuple) else [x])]


def brackets(t):
    return "".join("(%s)" % brackets(x) if isinstance(x, tuple) else "abcdefgh"[x] for x in t)


# -------------------------------------------------------- full distribution
def undistributed(I, p, x):
    x = R(strip(x))
    if not (isinstance(x, Adt) and x.n == EXPR):
        return None
    k = x.v
    A_ = frozenset([ADD])
    if k in (POW, LOG):
        parts = [R(strip(y)) for y in I.pair_parts(x.f[0])]
        for y in parts:
            r = undistributed(I, p, y)
            if r:
                return r
        if k == POW and I.kindset(parts[0]) == A_:
            m = parts[1]
            if I.kindset(m) == INTK:
                if could(I, p, [("!=", I.val(m), tm.MONE), (">", I.val(m), const(-(2**40))), ("<", I.val(m), const(2**40))]):
                    return "a sum raised to an integer power"
            if I.kindset(m) == frozenset([MUL]):
                for z in I.ca_items(I.fields(m)[0]):
                    z = R(strip(z))
                    if I.kindset(z) == INTK and could(I, p, [("!=", I.val(z), tm.MONE), (">", I.val(z), const(-(2**40))), ("<", I.val(z), const(2**40))]):
                        return "a sum raised to a multiple of an integer"
        return None
    if k not in (MUL, ADD):
        return None
    for z in I.ca_items(x.f[0]):
        z = R(strip(z))
        if k == MUL and I.kindset(z) == frozenset([ADD]):
            return "a product with a sum among its factors"
        r = undistributed(I, p, z)
        if r:
            return r
    return None


def dist_rule(I, ob, p, hit, count):
    try:
        d = undistributed(I, p, p.value)
    except Unsupported:
        return count("unread result")
    if d is None:
        return count("distributed")
    if not reach(I, p):
        return count("vacuous")
    count("undistributed")
    hit("expanding distributes everything", p, "expanding %s leaves %s: %s" % (ob.opt["shown"], d, repr(strip(p.value))[:300]), (ob.fn, ob.fn.span[1]))


AB, CD, EF = ("+", "a", "b"), ("+", "c", "d"), ("+", "e", "f")
DIST = [
    ("+", ("*", "a", CD), ("*", "a", CD)),
    ("+", ("*", "a", CD), ("*", "b", CD), "e"),
    ("*", "a", CD),
    ("*", AB, CD),
    ("*", AB, CD, "e"),
    ("*", AB, CD, EF),
    ("*", AB, CD, EF, ("+", "g", "h")),
    ("*", "N0", AB),
    ("*", "N0", "e", AB),
    ("*", "R0", AB),
    ("*", ("+", "a", "b", "c"), ("+", "d", "e", "f")),
    ("*", ("+", "a", "N0"), ("+", "b", "N1")),
    ("*", ("+", "a", "R0"), "b"),
    ("-", ("*", AB, CD), ("*", "e", AB)),
    ("/", AB, "c"),
    ("/", AB, "N0"),
    ("*", ("log", "a", "b"), CD),
    ("*", ("^", "a", "b"), CD),
    ("*", ("^", AB, -1), CD),
    ("*", ("^", AB, "c"), CD),
    ("^", AB, 2),
    ("^", AB, 3),
    ("^", AB, 4),
    ("^", AB, -2),
    ("^", AB, "N0"),
    ("^", ("+", "a", "b", "c"), 2),
    ("^", ("+", "a", "N0"), 2),
    ("^", AB, ("*", 2, "c")),
    ("^", AB, ("*", "N0", "c")),
    ("^", AB, ("*", 2, "c", "d")),
    ("*", ("^", AB, 2), CD),
    ("*", ("^", AB, 2), ("^", CD, 2)),
    ("*", ("^", AB, 2), "c"),
    ("^", ("*", AB, CD), 2),
    ("^", ("*", "e", AB), 2),
    ("*", "a", ("+", "b", ("*", "c", ("+", "d", "e")))),
    ("*", ("+", "a", ("*", "b", CD)), EF),
    ("^", ("+", "a", ("*", "b", CD)), 2),
    ("+", "e", ("*", "f", ("^", AB, 2))),
    ("+", ("*", AB, CD), ("*", "e", AB)),
    ("log", ("*", AB, CD), "e"),
    ("log", "e", ("*", AB, CD)),
    ("log", ("^", AB, 2), ("*", "c", AB)),
    ("^", "e", ("*", AB, CD)),
    ("^", ("*", "e", AB), "c"),
    ("^", "a", ("^", CD, 2)),
    ("*", "a", ("log", ("*", AB, CD), "e")),
    ("+", "a", ("log", "e", ("*", AB, CD))),
    ("*", "c", ("^", AB, ("*", 2, "x"))),
    ("*", "c", ("^", AB, ("*", "N0", "x"))),
    ("^", AB, -1),
    ("^", AB, -3),
    ("^", ("+", "a", "R0"), 2),
    ("^", ("+", "a", ("*", 2, "b")), 2),
    ("^", ("+", ("/", 1, 2), "a"), 2),
    ("*", ("/", 1, 2), AB),
    ("*", ("/", "N0", "N1"), AB),
    ("/", ("*", AB, CD), ("*", "e", "f")),
    ("/", AB, CD),
    ("/", AB, ("^", "c", 2)),
    ("/", "c", ("^", AB, 2)),
    ("*", ("^", AB, 2), ("^", AB, 3)),
    ("^", ("^", AB, 2), "c"),
    ("^", ("^", AB, "c"), 2),
    ("^", ("*", ("^", "a", 2), CD), 2),
    ("^", ("log", "a", ("*", AB, "c")), 2),
    ("^", 2, ("*", "c", AB)),
    ("^", "N0", ("*", "c", AB)),
    ("*", "a", ("^", "b", ("*", AB, "c"))),
    ("+", "N0", ("*", "N1", AB)),
    ("-", "e", AB),
    ("-", "e", ("*", "f", AB)),
    ("*", -1, AB),
    ("*", -1, "e", AB),
    ("^", ("+", "a", ("*", "b", ("^", CD, 2))), 2),
    ("^", ("+", "a", ("^", "b", 2)), 2),
    ("*", AB, ("+", ("log", "a", "b"), "c")),
    ("*", AB, ("+", ("^", "a", "b"), ("^", "a", 2))),
    ("^", ("+", "a", ("log", "a", "b")), 2),
]


def C21(cr, deep):
    b = B(cr)
    f = api(cr, EXPR, "expand")
    out = []
    for t in DIST + lens.schemes(cr)[2]:
        mk = scheme(b, t)
        o = dict(maxpaths=150, samples=0, seconds=15) if not deep else dict(maxpaths=8000, samples=1000, seconds=200)
        out.append(
            Ob("expand %s" % text(t), f, lambda I: [], None, (dist_rule,), run=(lambda mk: lambda I, a: I.call_fn(f, [mk(I)]))(mk), follow=True, steps=400000, shown=text(t), unroll=4 if not deep else 6, **o)
        )
    for t in lens.nested(deep):
        mk = scheme(b, t)
        o = few(deep)
        out.append(Ob("expand %s" % text(t), f, lambda I: [], None, (dist_rule,), run=(lambda mk: lambda I, a: I.call_fn(f, [mk(I)]))(mk), follow=True, shown=text(t), unroll=4, **o))
    return out


def few(deep):
    """bounds for the many generated nestings"""
    return dict(maxpaths=5, samples=3, seconds=6, steps=300000) if not deep else dict(maxpaths=100, samples=40, seconds=20, steps=600000)


# ------------------------------------------- values of whole manipulations
def meaning(tree, env, I):
    if isinstance(tree, int):
        return const(tree)
    if isinstance(tree, str):
        return I.val(env[tree])
    xs = [meaning(t, env, I) for t in tree[1:]]
    return {"+": tm.add, "*": tm.mul, "^": tm.pow_, "log": tm.log_, "/": tm.div, "-": tm.sub}[tree[0]](*xs)


OWN = [("log", "a", "a"), ("^", "a", "a"), ("*", "b", ("log", "a", "a")), ("+", "b", ("^", "a", "a")), ("^", ("log", "a", "a"), "b"), ("log", ("+", "a", "b"), ("+", "a", "b")), ("log", "a", ("log", "a", "a"))]


def whole(cr, name, deep, rules=("value",), light=False, **kw):
    """the manipulation on schematic inputs, every call followed: the value is kept
    (or another rule of results holds)"""
    b = B(cr)
    f = api(cr, EXPR, name)
    out = []
    S, P, D = lens.schemes(cr)
    for t in (DIST + D if name == "expand" else SUMS + PRODUCTS + NESTED + REALS + S + P) + OWN:
        mk = scheme(b, t)
        o = dict(maxpaths=20, samples=15, seconds=5) if light and not deep else dict(maxpaths=60, samples=40, seconds=10) if not deep else dict(maxpaths=8000, samples=1000, seconds=150)
        out.append(
            Ob("%s %s" % (name, text(t)), f, lambda I: [], (lambda t: lambda I, a: meaning(t, I.ctx.mark["env"], I))(t), rules, run=(lambda mk: lambda I, a: I.call_fn(f, [mk(I)]))(mk), follow=True, steps=400000, unroll=4 if not deep else 6, **dict(o, **kw))
        )
    for t in lens.nested(deep) if not light else lens.deeper(40 if not deep else 200):
        out.append(
            Ob("%s %s" % (name, text(t)), f, lambda I: [], (lambda t: lambda I, a: meaning(t, I.ctx.mark["env"], I))(t), rules, run=(lambda mk: lambda I, a: I.call_fn(f, [mk(I)]))(scheme(b, t)), follow=True, unroll=4, **dict(few(deep), **kw))
        )
    return out


REALS = [
    ("+", ("*", "R0", "a"), ("*", "R1", "a")),
    ("+", "R0", "N0", "a"),
    ("*", "R0", "N0", "a"),
    ("*", "R0", ("/", "N0", "N1")),
    ("+", "R0", ("/", "N0", "N1")),
    ("/", ("*", "R0", "a"), "R1"),
    ("^", ("*", "R0", "a"), "N0"),
    ("^", "R0", ("*", "N0", "a")),
    ("*", ("^", "R0", "a"), ("^", "R0", "b")),
    ("log", ("^", "a", "R0"), "b"),
    ("-", ("*", "R0", "a"), ("*", "N0", "a")),
    ("*", ("+", "R0", "a"), ("+", "N0", "a")),
]


# -------------------------------------------------------------- determinism
EFFECTS = [
    ("std::time::", "the clock"),
    ("std::env::", "the environment"),
    ("std::fs::", "the file system"),
    ("std::net::", "the network"),
    ("std::process::", "other processes"),
    ("std::thread::", "threads or thread-local state"),
    ("std::io::stdin", "the standard input"),
    ("std::io::Read", "an input stream"),
    ("std::sync::atomic::", "an atomic shared between calls"),
    ("core::sync::atomic::", "an atomic shared between calls"),
    ("std::sync::Mutex", "state shared between calls"),
    ("std::sync::RwLock", "state shared between calls"),
    ("std::sync::mpsc", "a channel"),
    ("std::hash::RandomState", "a randomly seeded hash"),
    ("std::collections::hash_map::RandomState", "a randomly seeded hash"),
    ("std::fmt::Pointer::fmt", "an address"),
    ("core::fmt::rt::Argument::<'_>::new_pointer", "an address"),
    ("rand::", "a random generator"),
    ("getrandom::", "a random generator"),
]


def effect_of(name):
    """what a callee outside the crate lets in besides its arguments"""
    n = name.lstrip("<&")
    for pre, what in EFFECTS:
        # the path itself, or the self type of a trait method on such a type
        if n.startswith(pre):
            return what
    if "atomic::Atomic" in n or "LocalKey" in n:
        return "state shared between calls"
    return None


SELFTEST = ["std::thread::LocalKey::<T>::with", "std::sync::atomic::AtomicUsize::fetch_add", "std::time::Instant::now", "<std::hash::RandomState as std::hash::BuildHasher>::hash_one"]


def effects(cr):
    st = dict(paths=0, done=0, panics=0, undecided=0, cut=0, infeasible=0, exhausted=True, why={}, verdicts={}, touched=[])
    for s in SELFTEST:
        if effect_of(s) is None:
            raise Anchor("effect rule does not match %s" % s)
    out, calls, consts = [], [0], [0]

    def hit(f, line, msg):
        out.append(Finding("results depend on the operands only", f.short, f.span[0], line, msg, []))

    def raw_static(t):
        return cr.types[t]["k"] == "ptr"

    def scan(f, x, line):
        if isinstance(x, dict):
            if "def" in x and "a" in x:
                calls[0] += 1
                for n in {x.get("def"), x.get("inst"), x.get("idef")} - {None}:
                    w = effect_of(n)
                    if w:
                        hit(f, line, "reaches %s: %s is used" % (w, n[:120]))
                        break
            if "ty" in x and "v" in x and isinstance(x["ty"], int):
                consts[0] += 1
                if raw_static(x["ty"]):
                    hit(f, line, "uses a mutable static")
            for v in x.values():
                scan(f, v, line)
        elif isinstance(x, list):
            if len(x) == 4 and x[0] == "cast" and "PointerExpose" in str(x[1]):
                hit(f, line, "turns an address into a number")
            if len(x) == 4 and x[0] == "cast" and x[1] == "Transmute":
                a = x[2]
                t = cr.types[x[3]]["k"] if isinstance(x[3], int) else None
                if t == "int" and a[0] in "cm" and not a[1][1:][0] and cr.types[f.locals[a[1][0]]]["k"] in ("ptr", "ref"):
                    hit(f, line, "turns an address into a number")
            for v in x:
                scan(f, v, line)

    fns = [f for f in cr.fns.values() if f.local and f.blocks]
    if len(fns) < 100:
        raise Anchor("only %d functions of the crate were extracted" % len(fns))
    for f in fns:
        for b in f.blocks:
            for s in b["s"]:
                scan(f, s, s[-1] if isinstance(s[-1], int) else b["l"])
            scan(f, b["t"], b["l"])
    st["paths"] = st["done"] = len(fns)
    st["verdicts"] = {"functions scanned": len(fns), "callees judged": calls[0], "constants judged": consts[0]}
    st["touched"] = sorted(f.id for f in fns)
    return st, out


def twice(f):
    """the same call under different iteration orders of unordered collections"""

    def run(I, a):
        rs = []
        try:
            for o in (0, 1, 2):
                I.order_flip = o
                rs.append(f(I, snapshot(a, {})))
        finally:
            I.order_flip = 0
        I.ctx.mark["third"] = rs[2]
        return rs[0], rs[1]

    return run


def det_rule(what):
    one = same_rule(what)

    def rule(I, ob, p, hit, count):
        x, y = p.value
        one(I, ob, p, hit, count)
        p.value = x, p.ctx.mark["third"]
        one(I, ob, p, hit, count)

    return rule


def C20(cr, deep):
    b = B(cr)
    r = (det_rule("the iteration order of unordered collections does not show"),)
    out = [Direct("effects of every function", effects)]
    g = lambda f: lambda I, a: I.call_fn(f, list(a))
    for n in ("addition", "multiplication"):
        f = api(cr, EXPR, n)
        for k in (2, 3):
            out.append(
                Ob("%s of %d" % (n, k), f, (lambda k: lambda I: [Seq([ex(I) for _ in range(k)])])(k), None, r, run=twice(g(f)), unordered=True, maxpaths=1500 if not deep else 20000, samples=100, seconds=20 if not deep else 200)
            )
    for n in ("subtraction", "division", "power", "logarithm"):
        f = api(cr, EXPR, n)
        out.append(Ob(n, f, lambda I: [ex(I), ex(I)], None, r, run=twice(g(f)), unordered=True, seconds=20))
    for n in ("expand", "simplify"):
        f = api(cr, EXPR, n)
        out.append(Ob(n, f, lambda I: [ex(I)], None, r, run=twice(g(f)), unordered=True, maxpay=3, maxpaths=1500, seconds=20))
    for n, f in sorted(rule_fns(cr).items()):
        out.append(
            Ob("%s::apply" % n, f, lambda I: [Ref([ex(I)], 0)], None, r, run=twice(g(f)), unordered=True, maxpay=3 if not deep else 4, maxpaths=1000 if not deep else 20000, samples=300 if not deep else 5000, seconds=15 if not deep else 200)
        )
    for n in ("equal", "greater", "lesser", "comparable"):
        f = api(cr, EXPR, n)
        out.append(Ob(n, f, lambda I: [ex(I), ex(I)], None, (bool_same,), run=twice(lambda I, a, f=f: I.call_fn(f, [Ref([a[0]], 0), Ref([a[1]], 0)])), unordered=True, maxpaths=300, maxdepth=1, seconds=20))
    f = api(cr, EXPR, "simplify")
    S, P, _ = lens.schemes(cr)
    for t in MANY + S + P:
        mk = scheme(b, t)
        out.append(
            Ob("simplify %s" % text(t), f, lambda I: [], None, r, run=(lambda mk: lambda I, a: twice(lambda I, a: I.call_fn(f, [a]))(I, mk(I)))(mk), follow=True, steps=600000, maxpaths=40 if not deep else 2000, seconds=15 if not deep else 100)
        )
    return out


def C25(cr, deep):
    """a second expansion changes nothing"""
    b = B(cr)
    out = []
    f = api(cr, EXPR, "expand")
    rule = same_rule("a second expansion changes nothing")
    given = DIST + lens.schemes(cr)[2]
    for i, t in enumerate(given + lens.nested(deep)):

        def run(I, a, f=f, mk=scheme(b, t)):
            x = I.call_fn(f, [mk(I)])
            return x, I.call_fn(f, [I.clone(x)])

        o = few(deep) if i >= len(given) else dict(maxpaths=30, samples=15, seconds=6) if not deep else dict(maxpaths=3000, samples=500, seconds=100)
        out.append(Ob("expand twice %s" % text(t), f, lambda I: [], None, (rule,), run=run, follow=True, shown=text(t), **dict(o, steps=800000)))
    return out


# -------------------------------------------------------- names carry no meaning
def foreign(I, x, depth=0):
    """a variable in a result whose label is no operand's label"""
    x = R(strip(x))
    if not (isinstance(x, Adt) and x.n == EXPR) or depth > 8:
        return None
    k = x.v
    if k == VAR:
        s = strip(x.f[0].f[0])
        return None if isinstance(s, StrV) and len(s.p) == 1 and isinstance(s.p[0], tuple) and s.p[0][0] == "var" else repr(s)
    if k in (MUL, ADD):
        xs = I.ca_items(x.f[0])
    elif k in (POW, LOG):
        xs = I.pair_parts(x.f[0])
    elif k in NUMK:
        return None
    else:
        xs = [strip(x.f[0].f[0])]
    return next((r for r in (foreign(I, y, depth + 1) for y in xs) if r), None)


def name_rule(I, ob, p, hit, count):
    ms = p.ctx.mark.get("named")
    if ms:
        if not reach(I, p):
            return count("vacuous")
        count("looked into")
        what, at = ms[0]
        return hit("the names of variables are only compared with each other", p, what, at)
    if p.kind != "return":
        return
    r = None
    for x in p.value if isinstance(p.value, tuple) else (p.value,):
        try:
            r = r or foreign(I, x)
        except Unsupported:
            pass
    if r:
        count("foreign")
        return hit("no variable is made up", p, "the result has the variable %s" % r, (ob.fn, ob.fn.span[1]))
    count("not looked into")


def C29(cr, deep):
    import order
    import props
    import props2

    o = dict(spy=True, partial=name_rule)
    r = (name_rule,)
    out = props.base(cr, r, deep, **o) + props.all_ops(cr, r, **o) + props.recursive(cr, "expand", r, deep, **o) + props.recursive(cr, "simplify", r, deep, **o) + props.rules_obs(cr, list(rule_fns(cr)), r, deep, **o)
    for n in ("equal", "not_equal", "greater", "lesser", "greater_equal", "lesser_equal", "comparable"):
        f = api(cr, EXPR, n)
        out.append(Ob(n, f, lambda I: [Ref([ex(I)], 0), Ref([ex(I)], 0)], None, r, maxpaths=600 if not deep else 6000, maxdepth=2, seconds=20, **o))
    out += whole(cr, "expand", deep, r, True, **o) + whole(cr, "simplify", deep, r, True, **o)
    # a label is kept as it is given, and only the same label is the same
    out += [x for x in props2.C08(cr, deep) if x.name.startswith("variable")]
    words = [(order.V, order.V)] + [t for t in order.samples(cr, 2, deep) if t[0][0] == "v"]
    return out + order.obs("labels are told apart", order.law_eq, words, deep, maxpaths=40, chunk=2000)


def bool_same(I, ob, p, hit, count):
    xs = [p.value[0], p.value[1], p.ctx.mark["third"]]
    if all(x == xs[0] for x in xs):
        return count("same")
    if not reach(I, p):
        return count("vacuous")
    count("different")
    hit("the iteration order of unordered collections does not show", p, "%s gives different answers" % ob.name, (ob.fn, ob.fn.span[1]))


MANY = [
    ("+", "a", "b", "c", "a", "b"),
    ("+", ("*", "N0", "a"), ("*", 2, "b"), ("*", 3, "c"), "a"),
    ("+", ("*", "a", "b"), ("*", "a", "c"), ("*", "b", "a"), "d", "c"),
    ("*", "a", "b", "c", "a", "c"),
    ("*", ("^", "a", "N0"), "b", ("^", "a", 2), "c", "b"),
    ("*", ("^", "a", "b"), ("^", "c", "d"), "a", "c"),
    ("*", ("+", "a", "b"), ("+", "a", "b", "c")),
    ("+", ("log", "a", "b"), ("^", "a", "b"), ("log", "a", "b"), "a"),
    ("*", ("^", 2, "a"), ("^", 3, "b"), "c"),
    ("*", ("^", "a", "d"), ("^", "b", "d"), ("^", "c", "d")),
    ("*", ("^", "a", 2), ("^", "b", 2), ("^", "c", 2)),
    ("+", ("*", 2, "a"), ("*", 2, "b"), ("*", 2, "c")),
    ("*", ("log", "a", "d"), ("log", "b", "d"), ("log", "c", "d")),
    ("*", "a", ("^", "b", -1), "c", ("^", "d", -1)),
]


MINE = {"C20": C20, "C21": C21, "C22": C22, "C29": C29, "C25": C25}
