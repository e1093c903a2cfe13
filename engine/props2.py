"""Properties of the parts: rationals, symbols, operators, collections, text,
comparisons."""
import itertools

import lens
import order
import spec
import terms as tm
from interp import *
from spec import ex, exref, inherent, sym_int, sym_real
from terms import add, const, div, fn as tfn, log_, mul, neg, pow_, sub
from verdict import Ob, could, reach
import props
from props import BIN, S_INT, S_REAL, S_STR, Anchor, api, form, generic, op_obs, ops, value_of

V = ("value",)


def find_ty(cr, last):
    for n in cr.adts:
        if n.startswith("ncas::") and n.split("::")[-1] == last:
            return n
    raise Anchor("type %s" % last)


def impl1(cr, trait, ty, m):
    for (tr, t, mm), fs in cr.impl_m.items():
        if tr == trait and mm == m and t.lstrip("&").strip() == ty:
            return fs[0]
    raise Anchor("%s for %s" % (trait, ty.split("::")[-1]))


# ---------------------------------------------------------------- rationals
def nz(I, t):
    if I.ctx.facts.decide("==", t, tm.ZERO) is False:
        return
    I.ctx.facts.assume("!=", t, tm.ZERO)


def ratio(I, name):
    n, d = sym_int(I, name), sym_int(I, name + "d")
    nz(I, d.f[0].t)
    return n, d


def C07(cr, deep):
    ty = find_ty(cr, "Rational")
    new, out_e, rec = api(cr, ty, "from"), api(cr, ty, "expr"), api(cr, ty, "from_expression")
    obs = []

    def q(n, d):
        return div(n.f[0].t, d.f[0].t)

    # construction and conversion
    obs.append(
        Ob(
            "a fraction converted to an expression",
            new,
            lambda I: list(ratio(I, "n")),
            lambda I, a: q(a[0], a[1]),
            V,
            run=lambda I, a: I.call_fn(out_e, [I.call_fn(new, list(a))]),
        )
    )
    # arithmetic
    for tr, m in (("Add", "add"), ("Sub", "sub"), ("Mul", "mul"), ("Div", "div")):
        fs = ops(cr, tr, ty)
        if not fs:
            raise Anchor("%s for fractions" % tr)
        for f in fs:

            def setup(I, tr=tr):
                a = list(ratio(I, "n")) + list(ratio(I, "m"))
                if tr == "Div":
                    nz(I, a[2].f[0].t)
                return a

            def run(I, a, f=f):
                x, y = I.call_fn(new, a[:2]), I.call_fn(new, a[2:])
                args = [Ref([z], 0) if cr.types[t]["k"] == "ref" else z for z, t in zip((x, y), f.locals[1:3])]
                return I.call_fn(out_e, [I.call_fn(f, args)])

            obs.append(Ob("fraction %s(%s)" % (m, form(cr, f)), f, setup, (lambda g: lambda I, a: g(q(a[0], a[1]), q(a[2], a[3])))(BIN[tr]), V, run=run))
    # equality
    eqf = impl1(cr, "PartialEq", ty, "eq")

    def eq_rule(I, ob, p, hit, count):
        n, d, m, e = [x.f[0].t for x in p.args]
        x, y = mul(n, e), mul(m, d)
        if could(I, p, [("!=" if p.value else "==", x, y)]):
            count("unequal fractions compared wrongly")
            hit("fractions are equal exactly when they denote the same number", p, "the comparison says %s" % ("equal for different fractions" if p.value else "different for equal fractions"), (eqf, eqf.span[1]))
        else:
            count("right")

    obs.append(
        Ob(
            "equality of fractions",
            eqf,
            lambda I: list(ratio(I, "n")) + list(ratio(I, "m")),
            None,
            (eq_rule,),
            run=lambda I, a: I.call_fn(eqf, [Ref([I.call_fn(new, list(a[:2]))], 0), Ref([I.call_fn(new, list(a[2:]))], 0)]),
        )
    )

    # recognition
    def rec_rule(must):
        def rule(I, ob, p, hit, count):
            r = p.value
            if r.v == 0:
                if must and reach(I, p):
                    count("missed")
                    hit("integers and their quotients are read as fractions", p, "%s is not recognised" % ob.name, (rec, rec.span[1]))
                else:
                    count("not a fraction")
                return
            try:
                e = I.call_fn(out_e, [r.f[0]])
            except (Panic, Cut):
                count("unread result")
                return
            p.value = e
            from verdict import rule_value

            rule_value(I, ob, p, hit, count)

        return rule

    t = lambda I, a: I.val(a[0])
    obs.append(Ob("an integer read as a fraction", rec, lambda I: [ex(I, frozenset([INT]))], t, (rec_rule(True),)))

    def inv(I):
        e = ex(I, frozenset([POW]))
        b, m = I.pair_parts(I.payload(e)[0])
        I.restrict(b, frozenset([INT]))
        I.restrict(m, frozenset([INT]))
        return [e]

    obs.append(Ob("a reciprocal integer read as a fraction", rec, inv, t, (rec_rule(True),)))

    def quo(I):
        e = ex(I, frozenset([MUL]))
        items = I.ca_items(I.payload(e)[0])
        I.restrict(items[0], frozenset([INT]))
        for z in items[1:]:
            I.restrict(z, frozenset([POW]))
            b, m = I.pair_parts(I.payload(z)[0])
            I.restrict(b, frozenset([INT]))
            I.restrict(m, frozenset([INT]))
        return [e]

    obs.append(Ob("a quotient of integers read as a fraction", rec, quo, t, (rec_rule(True),), maxpay=2))
    if lens.sizes(cr):
        obs.append(Ob("a long quotient of integers read as a fraction", rec, quo, t, (rec_rule(True),), lens=lens.sizes(cr), samples=50, maxpaths=100))
    obs.append(Ob("any expression read as a fraction", rec, lambda I: [ex(I)], t, (rec_rule(False),), maxpay=3))

    # powers built by hand: whatever is read must be the value
    obs.append(Ob("a power of integers built by hand read as a fraction", rec, inv, t, (rec_rule(False),), raw=True))

    # lowest terms, as the text form shows it
    try:
        disp = impl1(cr, "Display", ty, "fmt")
    except Anchor:
        disp = None
    if disp is not None:

        def low_rule(I, ob, p, hit, count):
            nums = [z for z in p.value if isinstance(z, tuple) and z[0] == "num"]
            if len(nums) != 2:
                count("text of another shape")
                return
            n, d = nums[0][2], nums[1][2]
            if could(I, p, [("!=", div(n, d), ob.opt["shown"](p.args))], 1500):
                hit("the text of a fraction shows its value", p, "the shown numerator and denominator denote another number", (disp, disp.span[1]))
                count("wrong text")
                return
            if could(I, p, [("!=", tfn("gcd", n, d), tm.ONE)], 1500):
                hit("fractions are kept in lowest terms", p, "numerator %s and denominator %s share a divisor" % (tm.show(n)[:80], tm.show(d)[:80]), (new, new.span[1]))
                count("not reduced")
                return
            count("reduced")

        def text(I, x):
            buf = [StrV(())]
            I.call_fn(disp, [Ref([x], 0), Ref(buf, 0)])
            return buf[0].p

        obs.append(
            Ob("lowest terms", new, lambda I: list(ratio(I, "n")), None, (low_rule,), run=lambda I, a: text(I, I.call_fn(new, list(a))), shown=lambda a: q(a[0], a[1]))
        )
        for tr, m in (("Add", "add"), ("Sub", "sub"), ("Mul", "mul"), ("Div", "div")):
            for f in ops(cr, tr, ty):

                def setup(I, tr=tr):
                    a = list(ratio(I, "n")) + list(ratio(I, "m"))
                    if tr == "Div":
                        nz(I, a[2].f[0].t)
                    return a

                def run(I, a, f=f):
                    x, y = I.call_fn(new, a[:2]), I.call_fn(new, a[2:])
                    return text(I, I.call_fn(f, adapt(cr, f, (x, y))))

                obs.append(Ob("lowest terms of fraction %s" % m, f, setup, None, (low_rule,), run=run, shown=(lambda g: lambda a: g(q(a[0], a[1]), q(a[2], a[3])))(BIN[tr])))
    return obs


# ------------------------------------------------------------------ symbols
def opt_rule(I, ob, p, hit, count):
    """an optional result: ob.opt['some'](I, args) says when it must be there"""
    from verdict import rule_value

    r = p.value
    cond = ob.opt["some"](I, p.args)  # (op, a, b): present exactly then
    if r.v == 0:
        if cond is True or (cond is not None and could(I, p, [cond])):
            count("missing")
            hit("result of %s" % ob.name, p, "nothing is returned where a value is required", (ob.fn, ob.fn.span[1]))
        else:
            count("absent")
        return
    if cond is not None and cond is not True and could(I, p, [(tm.NEG[cond[0]],) + tuple(cond[1:])]):
        count("unexpected")
        hit("result of %s" % ob.name, p, "a value is returned where there is none", (ob.fn, ob.fn.span[1]))
        return
    p.value = r.f[0]
    rule_value(I, ob, p, hit, count)


def sym_ops(cr, rules=V, **o):
    out = []
    for ty in (S_INT, S_REAL):
        for tr, g in (("Add", add), ("Sub", sub), ("Mul", mul), ("Div", div), ("Rem", None)):
            if tr == "Rem" and ty == S_REAL:
                continue
            fs = ops(cr, tr, ty)
            if not fs:
                raise Anchor("%s for %s" % (tr, ty.split("::")[-1]))
            for f in fs:
                if f.argc != 2:
                    continue

                def setup(I, f=f, tr=tr):
                    a = generic(cr, f)(I)
                    if tr in ("Div", "Rem"):
                        nz(I, value_of(I, a[1]))
                    return a

                if ty == S_INT and tr == "Div":
                    t = lambda I, a: tfn("idiv", value_of(I, a[0]), value_of(I, a[1]))
                elif tr == "Rem":
                    t = lambda I, a: tfn("irem", value_of(I, a[0]), value_of(I, a[1]))
                else:
                    t = (lambda g: lambda I, a: g(value_of(I, a[0]), value_of(I, a[1])))(g)
                out.append(Ob("%s %s(%s)" % ("integer" if ty == S_INT else "real", tr.lower(), form(cr, f)), f, setup, t, rules, **o))
    return out


def bool_rule(I, ob, p, hit, count):
    op, a, b = ob.opt["holds"](I, p.args)
    if could(I, p, [(tm.NEG[op] if p.value else op, a, b)]):
        count("wrong")
        hit("result of %s" % ob.name, p, "%s is returned where the opposite holds" % p.value, (ob.fn, ob.fn.span[1]))
    else:
        count("right")


def C08(cr, deep):
    out = sym_ops(cr)
    I1 = lambda m: api(cr, S_INT, m)
    g = lambda f: generic(cr, f)

    def o(name, f, term, **k):
        out.append(Ob(name, f, k.pop("setup", g(f)), term, k.pop("rules", V), **k))

    v = value_of
    o("greatest common divisor", I1("gcd"), lambda I, a: tfn("gcd", v(I, a[0]), v(I, a[1])))
    o("least common multiple", I1("lcm"), lambda I, a: tfn("lcm", v(I, a[0]), v(I, a[1])))
    o("opposite", I1("opposite"), lambda I, a: neg(v(I, a[0])))
    o("is negative", I1("is_negative"), None, rules=(bool_rule,), holds=lambda I, a: ("<", v(I, a[0]), tm.ZERO))
    o("integer power", I1("pow"), lambda I, a: pow_(v(I, a[0]), v(I, a[1])), rules=(opt_rule,), some=lambda I, a: (">=", v(I, a[1]), tm.ZERO))


    def at_zero(I):
        a = g(I1("pow"))(I)
        I.ctx.facts.assume("==", v(I, a[1]), tm.ZERO)
        return a

    o("integer power at the exponent zero", I1("pow"), lambda I, a: tm.ONE, rules=(opt_rule,), some=lambda I, a: True, setup=at_zero)
    o("integer constructor", I1("integer"), lambda I, a: v(I, a[0]))
    lo, hi = RANGES["Isize"]
    o("integer value", I1("value"), lambda I, a: v(I, a[0]), rules=(value_int_rule,))
    o("integer to real", I1("to_real"), lambda I, a: v(I, a[0]))
    o("integer to expression", I1("expr"), lambda I, a: v(I, a[0]), rules=("value", kind_rule), kind=INT)
    o("real constructor", api(cr, S_REAL, "real"), lambda I, a: v(I, a[0]))
    o("real value", api(cr, S_REAL, "value"), lambda I, a: v(I, a[0]), rules=(opt_rule,), some=lambda I, a: True)
    o("real to expression", api(cr, S_REAL, "expr"), lambda I, a: v(I, a[0]), rules=("value", kind_rule), kind=REAL)
    fv = api(cr, S_STR, "variable")
    fe = api(cr, S_STR, "expr")

    def label_rule(I, ob, p, hit, count):
        s = strip(p.value)
        if isinstance(s, Adt):
            s = strip(s.f[0])
        want = p.ctx.mark["label"]
        if not isinstance(s, StrV):
            return count("unread result")
        if s.p != want:
            count("another label")
            hit("result of %s" % ob.name, p, "the label becomes %r instead of %r" % (s.p, want), (ob.fn, ob.fn.span[1]))
        else:
            count("same")

    def label(I):
        s = (("var", I.ctx.fresh("s")),)
        I.ctx.mark["label"] = s
        return StrV(s)

    o("variable constructor", fv, None, rules=(label_rule,), setup=lambda I: [Ref([label(I)], 0)])
    o("variable label", api(cr, S_STR, "label"), None, rules=(label_rule,), setup=lambda I: [Ref([Adt(SYM, 0, [label(I)])], 0)])

    def var_rule(I, ob, p, hit, count):
        x = R(p.value)
        if x.v != VAR:
            hit("result of %s" % ob.name, p, "a variable becomes a %s" % KNAME[x.v])
            return count("wrong")
        p.value = x.f[0]
        label_rule(I, ob, p, hit, count)

    o("variable to expression", fe, None, rules=(var_rule,), setup=lambda I: [Adt(SYM, 0, [label(I)])])
    # order and equality of symbols follow their values
    return out


def kind_rule(I, ob, p, hit, count):
    ks = I.kindset(p.value)
    if ks != frozenset([ob.opt["kind"]]):
        hit("result of %s" % ob.name, p, "the expression is a %s" % "|".join(KNAME[k] for k in ks))
        count("wrong kind")


def value_int_rule(I, ob, p, hit, count):
    lo, hi = RANGES["Isize"]
    t = value_of(I, p.args[0])
    if p.value.v == 0:
        # nothing only when it does not fit
        if could(I, p, [(">=", t, const(lo)), ("<=", t, const(hi))]):
            hit("result of %s" % ob.name, p, "nothing is returned for an integer in range", (ob.fn, ob.fn.span[1]))
            count("missing")
        else:
            count("absent")
        return
    p.value = p.value.f[0]
    from verdict import rule_value

    rule_value(I, ob, p, hit, count)


# ---------------------------------------------- structural sameness of results
class Diff(Exception):
    pass


def alike(I, p, x, y, depth=0):
    """None when the two results are the same; a text when they differ; raises
    Unsupported when the analysis cannot tell"""
    x, y = R(strip(x)), R(strip(y))
    if x is y:
        return None
    if isinstance(x, Num) and isinstance(y, Num):
        r, n, w = tm.compare(p.ctx.facts, p.ctx.defs, p.ctx.kinds, x.t, y.t)
        return "%s against %s" % (tm.show(x.t)[:60], tm.show(y.t)[:60]) if r == "differ" else None
    if isinstance(x, Adt) and x.n == SYM and isinstance(y, Adt) and y.n == SYM:
        if isinstance(x.f[0], Num):
            return alike(I, p, x.f[0], y.f[0])
        return None if strip(x.f[0]).p == strip(y.f[0]).p else "two labels"
    kx, ky = I.kindset(x), I.kindset(y)
    if not (kx & ky):
        return "a %s against a %s" % ("|".join(KNAME[k] for k in sorted(kx)), "|".join(KNAME[k] for k in sorted(ky)))
    if isinstance(x, ESym) or isinstance(y, ESym):
        if len(kx) == 1 and kx == ky and kx <= NUMK:
            return alike(I, p, Num("BigInt", I.val(x)), Num("BigInt", I.val(y)))
        if isinstance(x, ESym) and isinstance(y, ESym) and x.inp and y.inp and kx == ky == frozenset([VAR]):
            # two variables nothing on this path makes one
            if p.ctx.facts.decide("==", x.a, y.a) is not True:
                return "two variables"
        raise Unsupported("two summarised results")
    k = x.v
    a, b = x.f[0], y.f[0]
    if k in NUMK or k == VAR:
        return alike(I, p, a, b)
    if k in (POW, LOG):
        u, v = I.pair_parts(a), I.pair_parts(b)
        return alike(I, p, u[0], v[0]) or alike(I, p, u[1], v[1])
    if k in (MUL, ADD):
        u, v = I.ca_items(a), list(I.ca_items(b))
        if len(u) != len(v):
            return "%d items against %d" % (len(u), len(v))
        unsure = False
        for i in u:
            for j, z in enumerate(v):
                try:
                    if alike(I, p, i, z, depth + 1) is None:
                        del v[j]
                        break
                except Unsupported:
                    unsure = True
            else:
                if unsure:
                    raise Unsupported("two summarised items")
                return "an item only one of the two has (%s)" % KNAME[sorted(I.kindset(i))[0]]
        return None
    return alike(I, p, strip(a.f[0]), strip(b.f[0]))


def same_rule(what):
    def rule(I, ob, p, hit, count):
        x, y = p.value
        try:
            d = alike(I, p, x, y)
        except Unsupported:
            return count("not compared")
        if d is None:
            return count("same")
        if not reach(I, p):
            return count("vacuous")
        count("different")
        hit(what, p, d, (ob.fn, ob.fn.span[1]))

    return rule


# --------------------------------------------------------------- C09, C14, C20
def forms(cr, trait, ty, ref_fn):
    fs = [f for f in ops(cr, trait, ty) if f.argc == 2]
    if len(fs) < 4:
        raise Anchor("%d of the 4 ownership forms of %s" % (len(fs), trait))
    return fs


def adapt(cr, f, xs):
    """the same operands, by value or by reference as the function wants"""
    return [Ref([x], 0) if cr.types[t]["k"] == "ref" else x for x, t in zip(xs, f.locals[1 : 1 + f.argc])]


def C09(cr, deep):
    out = []
    names = {"Add": "addition", "Mul": "multiplication", "Sub": "subtraction", "Div": "division"}
    rule = same_rule("every ownership form of an operator gives the result of the operation")
    for tr, n in names.items():
        c = api(cr, EXPR, n)
        for f in forms(cr, tr, EXPR, None):

            def run(I, a, f=f, c=c, n=n):
                x = I.call_fn(f, adapt(cr, f, a))
                if n in ("addition", "multiplication"):
                    y = I.contracts[c.id].apply(I, [Seq(list(a))], None) if c.id in I.contracts else I.call_fn(c, [Seq(list(a))])
                else:
                    y = I.contracts[c.id].apply(I, list(a), None) if c.id in I.contracts else I.call_fn(c, list(a))
                return x, y

            out.append(Ob("%s(%s)" % (f.inst.split("::")[-1], form(cr, f)), f, lambda I: [ex(I), ex(I)], None, (rule,), run=run, unordered=True, retry=300))
    out += op_obs(cr, "Add") + op_obs(cr, "Mul") + op_obs(cr, "Sub") + op_obs(cr, "Div")
    out += props.neg_obs(cr)
    nf = ops(cr, "Neg", EXPR)

    def nrun(I, a):
        return I.call_fn(nf[0], adapt(cr, nf[0], a)), I.call_fn(nf[1], adapt(cr, nf[1], a))

    out.append(Ob("both forms of negation", nf[0], lambda I: [ex(I)], None, (rule,), run=nrun, unordered=True, retry=300))
    for m, n in (("pow", "power"), ("log", "logarithm")):
        f, c = api(cr, EXPR, m), api(cr, EXPR, n)

        def mrun(I, a, f=f, c=c):
            x = I.call_fn(f, adapt(cr, f, a))
            y = I.contracts[c.id].apply(I, list(a), None) if c.id in I.contracts else I.call_fn(c, list(a))
            return x, y

        out.append(Ob("method %s" % m, f, lambda I: [ex(I), ex(I)], None, (rule,), run=mrun, unordered=True, retry=300))
    out += sym_ops(cr)
    return out


def C14(cr, deep):
    out = []
    rule = same_rule("the order of the operands does not matter")
    for n in ("addition", "multiplication"):
        f = api(cr, EXPR, n)
        for k in (2, 3):
            for perm in list(itertools.permutations(range(k)))[1:]:
                if k == 3 and perm not in ((1, 0, 2), (1, 2, 0), (2, 1, 0)):
                    continue

                def run(I, a, f=f, perm=perm):
                    x = I.call_fn(f, [Seq(list(a))])
                    y = I.call_fn(f, [Seq([a[i] for i in perm])])
                    return x, y

                o = dict(maxpaths=3000, seconds=40) if k == 2 else dict(maxpaths=300, samples=400 if not deep else 8000, seconds=25 if not deep else 200)
                out.append(Ob("%s of operands %s" % (n, "".join("abc"[i] for i in perm)), f, (lambda k: lambda I: [ex(I) for _ in range(k)])(k), None, (rule,), run=run, unordered=True, **o))
        for k in lens.sizes(cr):
            if k > 3:

                def runr(I, a, f=f):
                    return I.call_fn(f, [Seq(list(a))]), I.call_fn(f, [Seq(list(a)[::-1])])

                out.append(Ob("%s of %d operands reversed" % (n, k), f, (lambda k: lambda I: [ex(I) for _ in range(k)])(k), None, (rule,), run=runr, unordered=True, maxpaths=5, samples=80 if not deep else 2000, seconds=15))
                # given variables, some of them twice
                def given(I, k=k):
                    x = [order.make(I, ("v", "x%03d" % i)) for i in range(k - 1)]
                    return x + [I.clone(x[0])]

                orders = {"the repeated one next to the other": [0, k - 1] + list(range(1, k - 1)), "rotated": list(range(2, k)) + [0, 1], "backwards": list(range(k))[::-1], "odd after even": list(range(0, k, 2)) + list(range(1, k, 2))}
                for w, perm in orders.items():
                    if k < 130:

                        def rung(I, a, f=f, perm=perm):
                            return I.call_fn(f, [Seq(list(a))]), I.call_fn(f, [Seq([a[i] for i in perm])])

                        out.append(Ob("%s of %d variables, %s" % (n, k, w), f, given, None, (rule,), run=rung, unordered=True, follow=True, maxpaths=3, steps=600000, seconds=15))
    return out


def grouped(t, a):
    return [grouped(x, a) if isinstance(x, tuple) else a[x] for x in t]


def C27(cr, deep):
    import props3

    """sums of sums, products of products: the grouping is not seen in the result"""
    out = []
    rule = same_rule("the grouping of the operands does not matter")
    groups = [((0, 1),), ((0,), 1), ((0, 1), 2), (0, (1, 2)), ((0, 1), (2,)), ((0, (1, 2)),), ((0, 1), (2, 3)), (((0, 1), 2), 3), (0, (1, (2, 3)))]
    for n in ("addition", "multiplication"):
        f = api(cr, EXPR, n)
        for t in groups:
            k = len(props3.flat(t))

            def run(I, a, f=f, t=t):
                build = lambda xs: I.call_fn(f, [Seq([build(x) if isinstance(x, list) else x for x in xs])])
                return build(grouped(t, a)), I.call_fn(f, [Seq(list(a))])

            o = dict(maxpaths=3000, seconds=40) if k < 3 else dict(maxpaths=300, samples=400 if not deep else 8000, seconds=25 if not deep else 200)
            kinds = KINDS - {REAL}
            out.append(Ob("%s of operands grouped %s" % (n, props3.brackets(t)), f, (lambda k: lambda I: [ex(I, kinds) for _ in range(k)])(k), None, (rule,), run=run, unordered=True, noreal=True, **o))
    again = same_rule("a result built again from its parts is the same")
    for n, k in (("power", POW), ("logarithm", LOG)):
        f = api(cr, EXPR, n)

        def rebuild(I, a, f=f, k=k):
            x = I.call_fn(f, list(a))
            r = R(strip(x))
            if isinstance(r, Adt) and r.v == k:
                return x, I.call_fn(f, [I.clone(y) for y in I.pair_parts(r.f[0])])
            return x, x

        o = dict(maxpaths=1500, samples=500, seconds=25) if not deep else dict(maxpaths=20000, samples=8000, seconds=200)
        out.append(Ob("%s built again" % n, f, lambda I: [ex(I), ex(I)], None, (again,), run=rebuild, unordered=True, follow=True, maxdepth=2, **o))
    return out


def C28(cr, deep):
    """differences are sums of opposites, quotients products of reciprocals"""
    out = []
    rule = same_rule("a difference is the sum with the opposite, a quotient the product with the reciprocal")
    for n, by, with_ in (("subtraction", "addition", "multiplication"), ("division", "multiplication", "power")):
        f, g, h = api(cr, EXPR, n), api(cr, EXPR, by), api(cr, EXPR, with_)

        def mk(n_, f=f, g=g, h=h):
            def run(I, a):
                x = I.call_fn(f, [I.clone(y) for y in a])
                m = I.expr_int(tm.MONE)
                o = I.call_fn(h, [Seq([m, a[1]])] if n_ == "subtraction" else [a[1], m])
                return x, I.call_fn(g, [Seq([a[0], o])])

            return run

        kinds = KINDS if n == "subtraction" else KINDS - NUMK
        o = dict(maxpaths=1500, samples=500, seconds=25) if not deep else dict(maxpaths=20000, samples=8000, seconds=200)
        out.append(Ob(n, f, lambda I: [ex(I), ex(I, kinds)], None, (rule,), run=mk(n), unordered=True, noreal=True, follow=True, **o))
    return out


# ------------------------------------------------------------- collections
def C26(cr, deep):
    out = []
    new, items = api(cr, CA, "new"), api(cr, CA, "items")

    def coll(n, m, k):
        f = api(cr, CA, m)

        def run(I, a):
            c = I.call_fn(new, [Seq(list(a))])
            return I.call_fn(f, [Ref([c], 0)])

        return Ob("%s of a collection of %d" % (m, n), f, (lambda n: lambda I: [ex(I) for _ in range(n)])(n), None, (k,), run=run, anyfloat=True, **(dict(maxpaths=6000 if not deep else 60000, seconds=50) if n <= 3 else dict(maxpaths=100, samples=300 if not deep else 5000, seconds=15)))

    def sub_rule(pred, part=None):
        """the getter returns exactly the items (or their parts) that qualify"""

        def rule(I, ob, p, hit, count):
            got = [R(strip(z)) for z in p.value.items]
            I.ctx.mark["got"] = {I.skey(g) for g in got}
            want = []
            for z in p.args:
                q = pred(I, R(z))
                if q is None:
                    return count("not decided")
                if q:
                    want.append(R(strip(part(I, R(z)) if part else z)))
            left = list(want)
            for g in got:
                for j, w in enumerate(left):
                    if w is g or I.skey(w) == I.skey(g):
                        del left[j]
                        break
                else:
                    if not reach(I, p):
                        return count("vacuous")
                    count("extra")
                    return hit("%s returns the items it is for" % ob.fn.inst.split("::")[-1], p, "an item that does not qualify is returned", (ob.fn, ob.fn.span[1]))
            if left:
                if not reach(I, p):
                    return count("vacuous")
                count("missing")
                return hit("%s returns the items it is for" % ob.fn.inst.split("::")[-1], p, "a qualifying item is missing or changed", (ob.fn, ob.fn.span[1]))
            count("exact")

        return rule

    def is_kind(*ks):
        ks = frozenset(ks)

        def f(I, z):
            s = I.kindset(z)
            return True if s <= ks else False if not (s & ks) else None

        return f

    def inv(I, z):
        s = I.kindset(z)
        if POW not in s:
            return False
        if len(s) > 1:
            return None
        b, m = I.pair_parts(I.fields(z)[0])
        kb, km = I.kindset(b), I.kindset(m)
        i = frozenset([INT])
        if kb == i and km == i:
            return True
        if INT not in kb or INT not in km:
            return False
        return None

    def either(f, g):
        def h(I, z):
            a, b = f(I, z), g(I, z)
            if a or b:
                return True
            return None if a is None or b is None else False

        return h

    def notf(f):
        def h(I, z):
            a = f(I, z)
            return None if a is None else not a

        return h

    integer, real = is_kind(INT), is_kind(REAL)

    def rational(I, z):
        a = either(integer, inv)(I, z)
        if a is not False:
            return a
        s = I.kindset(z)
        if MUL not in s:
            return False
        if len(s) > 1:
            return None
        r = [either(integer, inv)(I, w) for w in map(R, I.ca_items(I.fields(z)[0]))]
        if all(x is True for x in r):
            return True
        return False if any(x is False for x in r) else None

    sizes = ((0, 1, 2) if not deep else (0, 1, 2, 3)) + tuple(n for n in lens.sizes(cr) + lens.products(cr) if n > 3)
    for n in sizes + (3,):
        out.append(coll(n, "items", sub_rule(lambda I, z: True)))
    for n in sizes:
        out.append(coll(n, "get_reals", sub_rule(real)))
        out.append(coll(n, "get_rational_numerators", sub_rule(integer)))
        out.append(coll(n, "get_rational_denominators", sub_rule(inv, lambda I, z: I.pair_parts(I.fields(z)[0])[0])))
        out.append(coll(n, "get_rationals", sub_rule(rational)))
        out.append(coll(n, "get_non_rationals", sub_rule(notf(rational))))
        out.append(coll(n, "get_symbolics", sub_rule(notf(either(either(integer, real), inv)))))

    # getters with a caller's function
    def pred(I, args):
        z = R(strip(args[0]))
        k = I.skey(z)
        m = I.ctx.mark.setdefault("pred", {})
        if k not in m:
            m[k] = I.ctx.choose(2, "the caller's predicate on %r" % z) == 0
        return m[k]

    def chosen(I, z):
        m = I.ctx.mark.get("pred", {})
        k = I.skey(R(z))
        if k not in m and not any(not isinstance(l, tuple) and (l.startswith("cmp ") or (" == " in l and c == 0)) for l, c, n in I.ctx.trace):
            # nobody asked about it: the predicate may hold for it, or not
            return I.ctx.mark.setdefault("unasked", {}).setdefault(k, k not in I.ctx.mark["got"])
        return m.get(k)

    for n in sizes:
        f = api(cr, CA, "get")

        def run(I, a, f=f):
            c = I.call_fn(new, [Seq(list(a))])
            return I.call_fn(f, [Ref([c], 0), Ref([PyFn(pred)], 0)])

        out.append(Ob("get from a collection of %d" % n, f, (lambda n: lambda I: [ex(I) for _ in range(n)])(n), None, (sub_rule(chosen),), run=run, maxpaths=300, samples=100))
        g = api(cr, CA, "get_one")

        def one_rule(I, ob, p, hit, count):
            m = p.ctx.mark.get("pred", {})
            r = p.value
            if r.v == 0:
                if len(m) < len({I.skey(R(z)) for z in p.args}) or any(m.values()):
                    if not reach(I, p):
                        return count("vacuous")
                    count("missing")
                    return hit("get_one finds a qualifying item", p, "nothing is found although an item qualifies", (ob.fn, ob.fn.span[1]))
                return count("absent")
            z = R(strip(r.f[0]))
            if not m.get(I.skey(z)) or not any(I.skey(R(w)) == I.skey(z) for w in p.args):
                count("wrong")
                return hit("get_one finds a qualifying item", p, "an item that does not qualify is returned", (ob.fn, ob.fn.span[1]))
            count("found")

        def run1(I, a, g=g):
            c = I.call_fn(new, [Seq(list(a))])
            return I.call_fn(g, [Ref([c], 0), Ref([PyFn(pred)], 0)])

        out.append(Ob("get_one from a collection of %d" % n, g, (lambda n: lambda I: [ex(I) for _ in range(n)])(n), None, (one_rule,), run=run1, maxpaths=300, samples=100))
        h = api(cr, CA, "map")

        def image(I, args):
            z = R(strip(args[0]))
            m = I.ctx.mark.setdefault("image", {})
            k = I.skey(z)
            if k not in m:
                m[k] = ex(I)
            return m[k]

        def runm(I, a, h=h):
            c = I.call_fn(new, [Seq(list(a))])
            return I.call_fn(h, [Ref([c], 0), Ref([PyFn(image)], 0)])

        out.append(
            Ob("map over a collection of %d" % n, h, (lambda n: lambda I: [ex(I) for _ in range(n)])(n), None, (sub_rule(lambda I, z: True, lambda I, z: I.ctx.mark.get("image", {}).get(I.skey(z), z)),), run=runm)
        )

    # stored components come back
    def back_rule(i):
        def rule(I, ob, p, hit, count):
            if R(strip(p.value)) is R(p.args[i]):
                return count("exact")
            if I.skey(R(strip(p.value))) == I.skey(R(p.args[i])):
                return count("exact")
            count("changed")
            hit("%s returns what was stored" % ob.name, p, "another expression is returned", (ob.fn, ob.fn.span[1]))

        return rule

    mk = api(cr, AO, "new")
    for i, m in enumerate(("argument", "modifier")):
        f = api(cr, AO, m)
        out.append(Ob("%s of an operation" % m, f, lambda I: [ex(I), ex(I)], None, (back_rule(i),), run=(lambda f: lambda I, a: I.call_fn(f, [Ref([I.call_fn(mk, list(a))], 0)]))(f)))
    mo, f = api(cr, OP, "new"), api(cr, OP, "argument")
    out.append(Ob("argument of a function", f, lambda I: [ex(I)], None, (back_rule(0),), run=lambda I, a: I.call_fn(f, [Ref([I.call_fn(mo, list(a))], 0)])))
    return out


# --------------------------------------------------------------------- text
def flat(p):
    return "".join(x if isinstance(x, str) else "\0" for x in p)


def balanced(p):
    """brackets of the literal text match (components bring their own)"""
    st = []
    for c in "".join(x for x in p if isinstance(x, str)):
        if c in "([{":
            st.append(c)
        elif c in ")]}":
            if not st or "([{".index(st.pop()) != ")]}".index(c):
                return False
    return not st


def C18(cr, deep):
    disp = impl1(cr, "Display", EXPR, "fmt")
    out = []

    def text(I, x):
        buf = [StrV(())]
        I.call_fn(disp, [Ref([x], 0), Ref(buf, 0)])
        return buf[0].p

    def node(I, k, n):
        """an expression of one kind with symbolic parts; returns it and its parts"""
        if k == VAR:
            s = (("var", I.ctx.fresh("s")),)
            return Adt(EXPR, VAR, [Adt(SYM, 0, [StrV(s)])]), [s[0]]
        if k == INT:
            x = sym_int(I)
            return Adt(EXPR, INT, [x]), [x.f[0].t]
        if k == REAL:
            x = sym_real(I)
            return Adt(EXPR, REAL, [x]), [x.f[0].t]
        ys = [ex(I) for _ in range(n)]
        if k in (MUL, ADD):
            return Adt(EXPR, k, [I.call_fn(api(cr, CA, "new"), [Seq(list(ys))])]), ys
        if k in (POW, LOG):
            return Adt(EXPR, k, [I.mk_pair(*ys)]), ys
        return Adt(EXPR, k, [Adt(OP, 0, [BoxV(ys[0])])]), ys

    def hole(z, part, I):
        if isinstance(z, str) or z[0] == "cut":
            return False
        if isinstance(part, tm.T):
            return z[0] == "num" and z[2] is part
        if isinstance(part, tuple):
            return z == part
        return z[0] == "expr" and R(z[2]) is R(part)

    def rule(I, ob, p, hit, count):
        txt, parts, k = p.value
        where = (disp, disp.span[1])
        what = "the text of a %s shows its parts" % KNAME[k]
        holes = [z for z in txt if not isinstance(z, str)]
        left = list(holes)
        for q in parts:
            for j, z in enumerate(left):
                if hole(z, q, I):
                    del left[j]
                    break
            else:
                count("hidden")
                return hit(what, p, "a component does not appear in full in the text %s" % pretty(txt), where)
        if left:
            count("extra")
            return hit(what, p, "something else than the components appears in the text %s" % pretty(txt), where)
        if k in (POW, LOG):
            if not hole(holes[0], parts[0], I):
                count("swapped")
                return hit(what, p, "the modifier is shown before the argument in %s" % pretty(txt), where)
        if k in (MUL, ADD, POW, LOG, SIN, COS):
            if not isinstance(txt[0], str) or not isinstance(txt[-1], str):
                count("open")
                return hit(what, p, "nested operands run into the surrounding text: %s" % pretty(txt), where)
            if not balanced(txt):
                count("unbalanced")
                return hit(what, p, "the brackets do not match in %s" % pretty(txt), where)
            for a, b in zip(txt, txt[1:]):
                if not isinstance(a, str) and not isinstance(b, str):
                    count("glued")
                    return hit(what, p, "two components are not separated in %s" % pretty(txt), where)
        count("shown")

    for k in range(9):
        for n in (1,) if k in (VAR, INT, REAL, SIN, COS) else (2,) if k in (POW, LOG) else [2, 3, 4] + [n for n in lens.sizes(cr) if n > 4]:

            def run(I, a, k=k, n=n):
                x, ps = node(I, k, n)
                return text(I, x), ps, k

            out.append(Ob("text of a %s of %d" % (KNAME[k], n), disp, lambda I: [], None, (rule,), run=run))

    def sep(I, ob, p, hit, count):
        for (a, ka), (b, kb) in itertools.combinations(p.value, 2):
            if flat(a) == flat(b):
                count("ambiguous")
                hit("different operations have different texts", p, "%s and %s are both shown as %s" % (KNAME[ka], KNAME[kb], pretty(a)), (disp, disp.span[1]))
                return
        count("distinct")

    out.append(Ob("texts of two-operand operations", disp, lambda I: [], None, (sep,), run=lambda I, a: [(text(I, node(I, k, 2)[0]), k) for k in (MUL, ADD, POW, LOG)]))
    out.append(Ob("texts of one-operand operations", disp, lambda I: [], None, (sep,), run=lambda I, a: [(text(I, node(I, k, 1)[0]), k) for k in (SIN, COS)]))

    # labels of numbers
    for ty, mk in ((S_INT, sym_int), (S_REAL, sym_real)):
        f = api(cr, ty, "label")

        def lrule(I, ob, p, hit, count):
            s = strip(p.value)
            if len(s.p) == 1 and hole(s.p[0], p.args[0].get().f[0].t, I):
                return count("shown")
            count("changed")
            hit("the label of a number is the number", p, "the label is %s" % pretty(s.p), (ob.fn, ob.fn.span[1]))

        out.append(Ob("label of %s" % ty.split("::")[-1], f, (lambda mk: lambda I: [Ref([mk(I)], 0)])(mk), None, (lrule,)))
    return out


def pretty(p):
    return "".join(z if isinstance(z, str) else "<%s>" % (z[0],) for z in p)


# -------------------------------------------------------------- comparisons
RELS = {"equal": "==", "not_equal": "!=", "greater": ">", "lesser": "<", "greater_equal": ">=", "lesser_equal": "<="}


def C17(cr, deep):
    fs = {n: api(cr, EXPR, n) for n in RELS}
    cmpf = api(cr, EXPR, "comparable")

    def run(I, a):
        r = {n: I.call_fn(f, [Ref([a[0]], 0), Ref([a[1]], 0)]) for n, f in fs.items()}
        r["comparable"] = I.call_fn(cmpf, [Ref([a[0]], 0), Ref([a[1]], 0)])
        return r

    def rule(must):
        def g(I, ob, p, hit, count):
            r = p.value
            x, y = I.val(p.args[0]), I.val(p.args[1])

            def bad(n, msg, kind):
                if not reach(I, p):
                    return count("vacuous")
                count(kind)
                f = fs.get(n, cmpf)
                hit("comparisons of expressions", p, msg, (f, f.span[1]))

            if not r["comparable"]:
                on = [n for n in RELS if r[n]]
                if on:
                    return bad(on[0], "%s holds between expressions that are not comparable" % on[0], "incoherent")
                if must:
                    return bad("comparable", "two numbers are not comparable", "incomparable")
                return count("not comparable")
            n3 = [n for n in ("equal", "greater", "lesser") if r[n]]
            if len(n3) != 1:
                return bad((n3 + ["equal"])[0], "of equal, greater and lesser, %s hold" % (" and ".join(n3) or "none"), "incoherent")
            for n, want in (("not_equal", not r["equal"]), ("greater_equal", not r["lesser"]), ("lesser_equal", not r["greater"])):
                if r[n] != want:
                    return bad(n, "%s contradicts the other comparisons" % n, "incoherent")
            op = RELS[n3[0]]
            if could(I, p, [(tm.NEG[op], x, y)]):
                count("unsound")
                f = fs[n3[0]]
                return hit("comparisons of expressions", p, "%s holds between values for which it does not" % n3[0], (f, f.span[1]))
            count("sound")

        return g

    I2 = frozenset([INT])
    R2 = frozenset([REAL])
    out = [
        Ob("comparison of two expressions", cmpf, lambda I: [ex(I), ex(I)], None, (rule(False),), run=run, maxdepth=1 if not deep else 2, maxpaths=20000, seconds=40 if not deep else 300),
        Ob("comparison of two integers", cmpf, lambda I: [ex(I, I2), ex(I, I2)], None, (rule(True),), run=run, follow=True),
        Ob("comparison of two reals", cmpf, lambda I: [ex(I, R2), ex(I, R2)], None, (rule(True),), run=run, follow=True),
        Ob("comparison of an integer and a real", cmpf, lambda I: [ex(I, I2), ex(I, R2)], None, (rule(False),), run=run, follow=True),
        Ob("comparison of an expression with itself", cmpf, lambda I: [ex(I)] * 2, None, (rule(False),), run=run, maxdepth=1),
    ]
    return out


MINE = {"C07": C07, "C08": C08, "C09": C09, "C14": C14, "C17": C17, "C18": C18, "C26": C26, "C27": C27, "C28": C28}
