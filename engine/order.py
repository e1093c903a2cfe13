"""Equality, ordering and hashing of expressions.  The crate's comparison code is
interpreted on pairs and triples of expression shapes whose leaves are abstract:
labels, integers and finite reals are known only through the comparisons the code
makes, so each trace partition stands for one relative order of the leaves."""
import itertools
import time

import lens
import spec
import terms as tm
from interp import *
from terms import atom
from verdict import Direct, Finding, show_trace

V, I_, R_ = "V", "I", "R"
NAN, INF, NINF, NZ = ("f", "nan"), ("f", "inf"), ("f", "-inf"), ("f", "-0.0")
LEAVES = [V, I_, R_, NAN, INF, NINF, NZ]


def P(a, b):
    return ("P", a, b)


def L(a, b):
    return ("L", a, b)


def S(a):
    return ("S", a)


def C(a):
    return ("C", a)


def Mu(*a):
    return ("M",) + a


def Ad(*a):
    return ("A",) + a


SMALL = [V, I_, R_, NAN, P(V, V), P(V, I_), L(V, V), S(V), C(V), Mu(V, V), Mu(I_, V), Ad(V, V), Ad(I_, V)]
MORE = [INF, NINF, NZ, P(I_, V), L(V, I_), Mu(R_, V), Ad(R_, V), Mu(V, V, V), Ad(V, V, V), P(Mu(V, V), V), Mu(V, P(V, V)), Ad(V, Mu(V, V)), P(Ad(V, V), I_), L(L(V, V), V), S(C(V)), Mu(I_, Ad(V, V)), Ad(P(V, I_), P(V, I_)), Mu(V)]


def name(s):
    if isinstance(s, str):
        return {"V": "variable", "I": "integer", "R": "real"}[s]
    if s[0] == "v":
        return "variable %r" % s[1]
    if s[0] in "nr":
        return "%r" % s[1]
    if s[0] == "f":
        return s[1]
    return {"P": "power", "L": "logarithm", "S": "sine", "C": "cosine", "M": "product", "A": "sum"}[s[0]] + "(" + ", ".join(map(name, s[1:])) + ")"


def leaf(s):
    return isinstance(s, str) or s[0] in "fvnr"


def make(I, s):
    c = I.ctx
    if s == V:
        return Adt(EXPR, VAR, [Adt(SYM, 0, [StrV((("var", c.fresh("v")),))])])
    if s == I_:
        n = c.fresh("n")
        c.kinds[n] = "int"
        c.facts.integral.add(atom(n))
        return I.expr_int(atom(n))
    if s == R_:
        n = c.fresh("f")
        c.kinds[n] = "real"
        return I.expr_real(atom(n))
    if s[0] == "f":
        return I.expr_real(tm.mk("special", s[1]))
    if s[0] == "v":
        return Adt(EXPR, VAR, [Adt(SYM, 0, [StrV((s[1],) if s[1] else ())])])
    if s[0] == "n":
        return I.expr_int(tm.const(s[1]))
    if s[0] == "r":
        return I.expr_real(tm.const(s[1]))
    xs = [make(I, y) for y in s[1:]]
    if s[0] in "PL":
        return Adt(EXPR, POW if s[0] == "P" else LOG, [I.mk_pair(*xs)])
    if s[0] in "SC":
        return Adt(EXPR, SIN if s[0] == "S" else COS, [Adt(OP, 0, [BoxV(xs[0])])])
    # a collection holds its items in no particular order
    f = spec.inherent(I.cr, CA, "new")
    if f is not None:
        p = I.call_fn(f, [Seq(xs)])
    else:
        p = Adt(CA, 0, [Heap(xs, False)])
    return Adt(EXPR, MUL if s[0] == "M" else ADD, [p])


def same(I, x, y):
    """structural equality: same kind, same leaves, collections as multisets"""
    x, y = strip(x), strip(y)
    if x.v != y.v:
        return False
    a, b = x.f[0], y.f[0]
    k = x.v
    if k == VAR:
        return I.str_eq(strip(a.f[0]), strip(b.f[0]))
    if k in NUMK:
        u, v = a.f[0], b.f[0]
        if u.t.op == "special" and u.t.args[0] == "nan" and v.t.op == "special" and v.t.args[0] == "nan":
            return True
        return I.test("==", u, v)
    if k in (POW, LOG):
        p, q = I.pair_parts(a), I.pair_parts(b)
        return same(I, p[0], q[0]) and same(I, p[1], q[1])
    if k in (MUL, ADD):
        u, v = I.ca_items(a), list(I.ca_items(b))
        if len(u) != len(v):
            return False
        for i in u:
            for j, z in enumerate(v):
                if same(I, i, z):
                    del v[j]
                    break
            else:
                return False
        return True
    return same(I, strip(a.f[0]), strip(b.f[0]))


def impl(cr, trait, m, ty=EXPR):
    l = cr.impl_m.get((trait, ty, m))
    return l[0] if l else None


class Bad(Exception):
    pass


class Laws:
    """the crate's comparison functions, as the interpreter sees them"""

    def __init__(self, I, ty=EXPR):
        self.I = I
        self.ty = ty
        cr = I.cr
        self.eqf = impl(cr, "PartialEq", "eq", ty)
        self.nef = impl(cr, "PartialEq", "ne", ty)
        self.cmpf = impl(cr, "Ord", "cmp", ty)
        self.pcmpf = impl(cr, "PartialOrd", "partial_cmp", ty)
        self.hashf = impl(cr, "Hash", "hash", ty)
        self.rel = {o: impl(cr, "PartialOrd", o, ty) for o in ("lt", "le", "gt", "ge")}

    def r(self, x):
        """the value itself, or what the expression holds"""
        return Ref([x if self.ty == EXPR else x.f[0]], 0)

    def eq(self, x, y):
        return self.I.call_fn(self.eqf, [self.r(x), self.r(y)])

    def cmp(self, x, y):
        return self.I.call_fn(self.cmpf, [self.r(x), self.r(y)]).v - 1

    def pcmp(self, x, y):
        r = self.I.call_fn(self.pcmpf, [self.r(x), self.r(y)])
        return None if r.v == 0 else strip(r.f[0]).v - 1

    def hash(self, x):
        h = HasherV()
        self.I.call_fn(self.hashf, [self.r(x), Ref([h], 0)])
        return h.tr


def same_trace(I, a, b):
    if len(a) != len(b):
        return False
    for p, q in zip(a, b):
        if p[0] != q[0] or len(p) != len(q):
            return False
        if p[0] == "n":
            if p[1] != q[1]:
                return False
            if not same_num(I, p[2], q[2]):
                return False
        elif p[1:] != q[1:]:
            return False
    return True


def same_num(I, a, b):
    """equal values: the same term once equal parts are replaced by one of them"""
    if a is b:
        return True
    if a.op == "special" or b.op == "special":
        return False
    if I.ctx.facts.decide("==", a, b) is True:
        return True
    if a.op == "f" and b.op == "f" and a.args[0] == b.args[0] and len(a.args) == len(b.args):
        return all(same_num(I, x, y) for x, y in zip(a.args[1:], b.args[1:]))
    # a possibly different value: is there a valuation that separates them?
    f = tm.Facts()
    f.integral = set(I.ctx.facts.integral)
    for op, x, y in I.ctx.facts.list:
        f.assume(op, x, y)
    if f.decide("!=", a, b) is False:
        return True
    f.assume("!=", a, b)
    return tm.feasible(f, I.ctx.defs, I.ctx.kinds) is None


def law_eq(I, Lw, x, y, say):
    e = Lw.eq(x, y)
    e2 = Lw.eq(y, x)
    s = same(I, x, y)
    if e != e2:
        say("equality is not symmetric: a == b is %s, b == a is %s" % (e, e2), Lw.eqf)
    if e and not s:
        say("two different expressions are equal", Lw.eqf)
    if s and not e:
        say("two identical expressions are not equal", Lw.eqf)
    if Lw.nef is not None and I.call_fn(Lw.nef, [Lw.r(x), Lw.r(y)]) == e:
        say("a != b agrees with a == b", Lw.nef)


def law_refl(I, Lw, x, y, say):
    if not Lw.eq(x, x):
        say("an expression is not equal to itself", Lw.eqf)
    y = I.clone(x)
    if not Lw.eq(x, y):
        say("an expression is not equal to its copy", Lw.eqf)


def law_ord(I, Lw, x, y, say):
    c = Lw.cmp(x, y)
    d = Lw.cmp(y, x)
    s = same(I, x, y)
    if c != -d:
        say("order is not antisymmetric: cmp(a, b) is %d, cmp(b, a) is %d" % (c, d), Lw.cmpf)
    if (c == 0) != s:
        say("order says %s for %s expressions" % ("equal" if c == 0 else "different", "identical" if s else "different"), Lw.cmpf)
    if Lw.pcmpf is not None:
        q = Lw.pcmp(x, y)
        if q != c:
            say("partial_cmp gives %s where cmp gives %d" % (q, c), Lw.pcmpf)
    for o, f in Lw.rel.items():
        if f is not None:
            r = I.call_fn(f, [Lw.r(x), Lw.r(y)])
            if r != {"lt": c < 0, "le": c <= 0, "gt": c > 0, "ge": c >= 0}[o]:
                say("%s disagrees with cmp" % o, f)


def law_kind(I, Lw, x, y, say):
    if Lw.cmp(x, x) != 0:
        say("an expression is ordered before or after itself", Lw.cmpf)


def law_value(I, Lw, x, y, say):
    """two integers, or two reals, are ordered as numbers"""
    u, v = (strip(z.f[0].f[0]) for z in (x, y))
    c = Lw.cmp(x, y)
    if u.t.op == "special" or v.t.op == "special":
        a, b = (float(t.args[0]) if t.op in ("special", "c") else None for t in (u.t, v.t))
        if a is None or b is None or a != a or b != b or a == b:
            return False
        want = (a > b) - (a < b)
    else:
        want = I.cmp3(u, v)
    if want and c != want:
        say("the order of two numbers is not that of their values: %d instead of %d" % (c, want), Lw.cmpf)
    return want != 0


def law_trans(I, Lw, x, y, z, say):
    a, b = Lw.cmp(x, y), Lw.cmp(y, z)
    if a == 0 or b == 0 or a != b:
        return False
    c = Lw.cmp(x, z)
    if c != a:
        say("order is not transitive: cmp(a, b) = cmp(b, c) = %d but cmp(a, c) = %d" % (a, c), Lw.cmpf)
    return True


def law_hash(I, Lw, x, y, say):
    e = Lw.eq(x, y)
    if not e:
        return False
    h, g = Lw.hash(x), Lw.hash(y)
    if not same_trace(I, h, g):
        say("equal expressions feed different data to the hasher", Lw.hashf)
    return True


def law_hash_refl(I, Lw, x, y, say):
    y = I.clone(x)
    h, g = Lw.hash(x), Lw.hash(y)
    if not same_trace(I, h, g):
        say("an expression and its copy feed different data to the hasher", Lw.hashf)


def run(cr, rule, tuples, law, maxpaths, seconds, samples=0, ty=EXPR):
    I = spec.build(cr)
    I.exprmode = "order"
    I.contracts = {}
    I.touched = set()
    Lw = Laws(I, ty)
    total = dict(paths=0, done=0, panics=0, undecided=0, cut=0, infeasible=0, exhausted=True, why={})
    verd = {}
    finds = {}
    t0 = time.time()
    cur = [None]

    def count(k):
        verd[k] = verd.get(k, 0) + 1

    def body(I, args):
        hits = []
        r = law(I, Lw, *args, say=lambda m, f: hits.append((m, f)))
        return hits, r

    def on(p):
        if p.kind == "panic":
            if tm.feasible(p.ctx.facts, p.ctx.defs, p.ctx.kinds) is None:
                return count("vacuous")
            f, line = p.exc.where if p.exc.where and p.exc.where[0] is not None else (Lw.cmpf or Lw.eqf, 0)
            if not f.local:
                for g, ln in reversed(p.exc.stack):
                    if g.local:
                        f, line = g, ln
                        break
            x = Finding(rule, f.short, f.span[0], line, "panic while comparing: %s" % p.exc.msg, show_trace(p.ctx), cur[0])
            finds.setdefault(x.key(), x)
            return
        if p.kind != "return":
            return
        hits, r = p.value
        if not hits:
            return count("premise not met" if r is False else "lawful")
        if tm.feasible(p.ctx.facts, p.ctx.defs, p.ctx.kinds) is None:
            return count("vacuous")
        count("broken")
        for m, f in hits:
            x = Finding(rule, f.short, f.span[0], f.span[1], "%s, for %s" % (m, cur[0]), show_trace(p.ctx))
            k = "%s|%s|%s" % (rule, f.short, m)
            if k not in finds:
                x.key = (lambda k: lambda: k)(k)
                finds[k] = x

    def merge(st):
        for k, v in st.items():
            if k == "why":
                for a, b in v.items():
                    total["why"][a] = total["why"].get(a, 0) + b
            elif k == "exhausted":
                total[k] = total[k] and v
            else:
                total[k] += v

    n = 0
    for tup in tuples:
        if time.time() - t0 > seconds:
            total["exhausted"] = False
            break
        n += 1
        cur[0] = " and ".join(name(s) for s in tup if s is not None)
        merge(explore(I, lambda I: [None if s is None else make(I, s) for s in tup], body, maxpaths=maxpaths, on_path=on, deadline=t0 + seconds))
        if samples:
            st = explore(I, lambda I: [None if s is None else make(I, s) for s in tup], body, maxpaths=samples, on_path=on, deadline=t0 + seconds, rnd=7)
            merge(st)
    verd["shapes combined"] = n
    total["verdicts"] = verd
    total["touched"] = sorted(I.touched)
    return total, list(finds.values())


def obs(rule, law, tuples, deep, chunk=24, **o):
    kw = dict(maxpaths=400 if not deep else 4000, seconds=60 if not deep else 500)
    kw.update(o)
    out = []
    for i in range(0, len(tuples), chunk):
        ts = tuples[i : i + chunk]
        out.append(Direct("%s, shapes %d to %d" % (rule, i, i + len(ts) - 1), (lambda ts: lambda cr: run(cr, rule, ts, law, **kw))(ts), 4000))
    return out


def pairs(shapes):
    return [(a, b) for i, a in enumerate(shapes) for b in shapes[i:]]


def need(cr, *fs):
    from props import Anchor

    for tr, m in fs:
        if impl(cr, tr, m) is None:
            raise Anchor("%s::%s for expressions" % (tr, m))


REALS = [R_, NAN, INF, NINF, NZ]
PARTS = {
    SYM + "<std::string::String>": [V],
    SYM + "<num::BigInt>": [I_],
    SYM + "<f64>": REALS,
    AO: [P(V, V), P(V, I_), P(I_, V), P(P(V, V), V)],
    OP: [S(V), S(I_), S(R_), S(S(V))],
    CA: [Mu(V, V), Mu(I_, V), Mu(V, V, V), Mu(V, Mu(V, V)), Mu(V)],
}


def of(ty):
    return {AO: " of operation parts", OP: " of function parts", CA: " of collections"}.get(ty, " of symbols <%s>" % ty.split("<")[-1].strip(">").split("::")[-1])


def parts(cr, trait, m, rule, law, n, deep):
    """the same law for the values expressions are made of, where they have it"""
    out = []
    for ty, sh in PARTS.items():
        if impl(cr, trait, m, ty) is None:
            continue
        ts = [(a, None) for a in sh] if n == 1 else pairs(sh) if n == 2 else list(itertools.product(sh, repeat=3))
        if ty.startswith(SYM):
            cs = [t for t in samples(cr, n, deep) if t[0][0] == {"String>": "v", "BigInt>": "n", "f64>": "r"}[ty.split("::")[-1].split("<")[-1]] or ty.endswith("f64>") and t[0][0] == "f"]
            out += obs(rule + of(ty) + ", representatives", law, cs, deep, ty=ty, maxpaths=40, chunk=max(300, len(cs) // 3))
        out += obs(rule + of(ty), law, ts, deep, ty=ty, maxpaths=400 if n < 3 else 60)
    return out


# representatives of each kind of leaf: comparisons that look inside a label or a
# number are decided on these, whatever functions they use
WORDS = ["", "a", "b", "A", "ab", "aB", "a ", " a", "x1", "x2", "x10", "x02", "x9", "1", "01", "-1", "10", "2", "\u00e9", "e\u0301", "z", "x_1", "a.b", "x18446744073709551617", "longer label"]
INTS = [0, 1, -1, 2, -2, 3, 7, 10, -10, 255, 256, 2**31 - 1, 2**31, -(2**31), 2**32, 2**32 + 1, 2**53, 2**53 + 1, 2**63 - 1, 2**63, -(2**63), -(2**63) - 1, -(2**62), 2**64, 2**64 + 1, -(2**64), 2**64 + 2**63,
        2**128 + 1, 2**128 + 2, 2**200, 2**200 + 1, -(2**200), 3**400, -(3**400), 2**1100, 2**1100 + 1]
FLTS = [0.0, 1.0, -1.0, 0.1, -0.1, 0.5, 2.0, -2.0, 1.5, 1.0000000000000002, 1e-300, -1e-300, 5e-324, 1e16, -1e16, 1e300, -1e300, 1e308, 4.0, 3.0, 8.0, 1024.0, 0.30000000000000004, 0.3]


def words(cr):
    out = list(WORDS)
    for w in lens.texts(cr):
        out += [w, w + "1", "a" + w]
    return list(dict.fromkeys(out))


def ints(cr):
    out = list(INTS)
    for c in lens.numbers(cr):
        out += [c - 1, c, c + 1, -c]
    return list(dict.fromkeys(out))


def floats(cr):
    out = list(FLTS)
    for c in lens.floats(cr):
        out += [c, -c]
    return list(dict.fromkeys(out))


def some_of(l, n):
    if len(l) <= n:
        return l
    return [l[i * (len(l) - 1) // (n - 1)] for i in range(n)]


def samples(cr, n, deep):
    """tuples of concrete leaves"""
    out = []
    for tag, l in (("v", words(cr)), ("n", ints(cr)), ("r", floats(cr))):
        l = [(tag, x) for x in l]
        if tag == "r":
            l += [NAN, INF, NINF, NZ]
        if n == 1:
            out += [(x, None) for x in l]
        elif n == 2:
            out += pairs(l)
        else:
            l = some_of(l, 14 if not deep else 30)
            out += list(itertools.permutations(l, 3))
    return out


KINDS_ = [V, I_, R_, P(V, V), L(V, V), S(V), C(V), Mu(V, V), Ad(V, V)]


def wraps(x):
    return [P(x, V), P(V, x), L(x, V), L(V, x), S(x), C(x), Mu(x, V), Ad(x, V)]


def plain(w):
    """the same wrapper around a variable"""
    return tuple([w[0]] + [V if not leaf(y) else y for y in w[1:]])


def related(n):
    """a shape, something built from it, and the same built from something else"""
    out = []
    for x in KINDS_:
        if n == 2:
            out += [(P(x, V), P(V, x)), (L(x, V), L(V, x)), (P(x, V), L(x, V)), (Mu(x, V), Ad(x, V)), (S(x), C(x))]
        for w in wraps(x):
            if n == 2:
                out.append((x, w))
            else:
                z = plain(w)
                for y in (z,) if n == 3 else ():
                    out += [(x, w, y), (w, x, y), (x, y, w)]
    return list(dict.fromkeys(out))


def longer(cr):
    """collections around the lengths the code singles out"""
    out = []
    for n in lens.sizes(cr):
        if n > 3:
            for m in (n, n + 1):
                out += [Mu(*[V] * m), Ad(*[V] * m)]
    return out


def long_pairs(rule, law, cr, deep):
    sh = [s for s in longer(cr) if len(s) < 50]
    ps = [(a, b) for a, b in pairs(sh) if a[0] == b[0] and abs(len(a) - len(b)) <= 1]
    out = obs(rule + ", long collections", law, ps, deep, chunk=4, maxpaths=20, samples=60, seconds=20) if ps else []
    # the same items but one, in this order or another
    ps = []
    for n in sorted({m for k in lens.sizes(cr) if k > 3 for m in (k, k + 1)})[-6:]:
        x = [("v", "x%03d" % i) for i in range(n)]
        y, z = ("v", "y"), ("v", "a")
        family = [x, x[::-1], x[1:] + x[:1], x[:-1] + [y], x[:-1] + [z], x[:-2] + [y, z], [z] + x[1:], x[: n // 2] + [y] + x[n // 2 + 1 :], x[:-1], x + [y], x[:-1] + [x[0]], x[:-1] + [x[1]], x[: n // 2] * 2, x[::2] + x[1::2]]
        ps += pairs([Mu(*w) for w in family]) + pairs([Ad(*w) for w in family[:6]])
    return out + (obs(rule + ", long collections with one difference", law, ps, deep, chunk=30, maxpaths=6, seconds=40) if ps else [])


def extra(rule, law, cr, n, deep):
    """leaves that are representatives, and shapes built from one another"""
    cs = samples(cr, n, deep)
    rs = related(n)
    return obs(rule + ", representatives", law, cs, deep, maxpaths=40, chunk=max(300, len(cs) // 8)) + obs(rule + ", nested", law, rs, deep, chunk=40, maxpaths=60)


def numbers(cr, deep):
    out = []
    num = [(I_, I_)] + pairs(REALS) + [t for t in samples(cr, 2, deep) if t[0][0] != "v"]
    out += obs("numbers are ordered by value", law_value, num, deep, maxpaths=40, chunk=2000)
    for ty, ok in ((SYM + "<num::BigInt>", lambda s: s == I_ or s[0] == "n"), (SYM + "<f64>", lambda s: s == R_ or s[0] in "rf")):
        if impl(cr, "Ord", "cmp", ty) is not None:
            out += obs("order of symbols by value" + of(ty), law_value, [t for t in num if ok(t[0]) and ok(t[1])], deep, ty=ty, maxpaths=40, chunk=2000)
    return out


def C10(cr, deep):
    need(cr, ("PartialEq", "eq"))
    sh = SMALL + MORE
    return (
        obs("equality is structural", law_eq, pairs(sh), deep)
        + long_pairs("equality is structural", law_eq, cr, deep)
        + obs("equality is reflexive", law_refl, [(s, None) for s in sh], deep)
        + extra("equality is structural", law_eq, cr, 2, deep)
        + parts(cr, "PartialEq", "eq", "equality", law_eq, 2, deep)
        + parts(cr, "PartialEq", "eq", "reflexive equality", law_refl, 1, deep)
    )


def C11(cr, deep):
    need(cr, ("Ord", "cmp"))
    sh = SMALL + MORE
    tri = SMALL + ([] if not deep else MORE)
    ts = list(itertools.product(tri, repeat=3))
    return (
        obs("order is total and agrees with equality", law_ord, pairs(sh), deep)
        + long_pairs("order is total and agrees with equality", law_ord, cr, deep)
        + obs("order is reflexive", law_kind, [(s, None) for s in sh], deep)
        + obs("order is transitive", law_trans, ts, deep, chunk=max(40, len(ts) // 48), maxpaths=60 if not deep else 600)
        + extra("order is total and agrees with equality", law_ord, cr, 2, deep)
        + extra("order is transitive", law_trans, cr, 3, deep)
        + numbers(cr, deep)
        + parts(cr, "Ord", "cmp", "order", law_ord, 2, deep)
        + parts(cr, "Ord", "cmp", "transitive order", law_trans, 3, deep)
    )


def C12(cr, deep):
    need(cr, ("Hash", "hash"), ("PartialEq", "eq"))
    sh = SMALL + MORE
    ps = [(a, b) for a, b in pairs(sh)]
    return (
        obs("hash agrees with equality", law_hash, ps, deep)
        + long_pairs("hash agrees with equality", law_hash, cr, deep)
        + obs("hash is a function of the value", law_hash_refl, [(s, None) for s in sh], deep)
        + extra("hash agrees with equality", law_hash, cr, 2, deep)
        + parts(cr, "Hash", "hash", "hash", law_hash, 2, deep)
    )
