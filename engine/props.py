"""The properties: which obligations each one consists of."""
import spec
import terms as tm
from interp import *
from spec import CONSTRUCT, Missing, ex, exref, inherent, need, rule_name, sym_int, sym_real, trait_fns, vec
from terms import add, const, div, fn as tfn, log_, mul, neg, pow_, sub
from verdict import Ob

S_INT = SYM + "<num::BigInt>"
S_REAL = SYM + "<f64>"
S_STR = SYM + "<std::string::String>"


class Anchor(Exception):
    """a public item the property is about does not exist any more"""


def api(cr, ty, name):
    f = inherent(cr, ty, name)
    if f is None:
        raise Anchor("%s::%s not found" % (ty.split("::")[-1], name))
    return f


# ------------------------------------------------------------ argument builders
def build_arg(cr, I, ty):
    t = cr.types[ty]
    k = t["k"]
    if k in ("ref", "ptr"):
        return Ref([build_arg(cr, I, t["t"])], 0)
    if k == "adt":
        n = t["n"]
        if n == EXPR:
            return ex(I)
        if n == SYM:
            full = " ".join(str(cr.types[a].get("n") or cr.types[a]["k"]) for a in t.get("a", []) if isinstance(a, int))
            if "BigInt" in full:
                return sym_int(I)
            if "F64" in full:
                return sym_real(I)
            return Adt(SYM, 0, [StrV((("var", I.ctx.fresh("s")),))])
    if k == "int":
        return mach(I, t["n"])
    if k == "float":
        n = I.ctx.fresh("f")
        I.ctx.kinds[n] = "real"
        return Num("F64", tm.atom(n), True)
    raise Unsupported("argument of type %r" % (t,))


def mach(I, ty, name="k"):
    n = I.ctx.fresh(name)
    I.ctx.kinds[n] = "int"
    a = tm.atom(n)
    I.ctx.facts.integral.add(a)
    lo, hi = RANGES[ty]
    I.ctx.facts.assume(">=", a, const(lo))
    if hi is not None:
        I.ctx.facts.assume("<=", a, const(hi))
    return Num(ty, a)


def generic(cr, f):
    return lambda I: [build_arg(cr, I, t) for t in f.locals[1 : 1 + f.argc]]


def value_of(I, x):
    x = R(strip(x))
    if isinstance(x, Adt) and x.n == SYM:
        return x.f[0].t
    if isinstance(x, Num):
        return x.t
    return I.val(x)


def ops(cr, trait, ty):
    """every ownership form of an operator between two values of one type"""
    out = []
    for (tr, t, m), fs in sorted(cr.impl_m.items()):
        if tr == trait and t.lstrip("&").strip() == ty:
            out += fs
    return sorted(out, key=lambda f: f.id)


BIN = {"Add": add, "Sub": sub, "Mul": mul, "Div": div}


def form(cr, f):
    def one(ty):
        t = cr.types[ty]
        return "&" + one(t["t"]) if t["k"] == "ref" else t.get("n", t["k"]).split("::")[-1]

    return ", ".join(one(t) for t in f.locals[1 : 1 + f.argc])


def op_obs(cr, trait, rules=("value",), **o):
    o.setdefault("maxpay", 3)
    fs = ops(cr, trait, EXPR)
    if len(fs) < 4:
        raise Anchor("%d of the 4 ownership forms of %s for expressions" % (len(fs), trait))
    g = BIN[trait]
    out = []
    for f in fs:
        if f.argc != 2:
            continue
        d = (lambda a: [a_val(a[1])]) if trait == "Div" else None
        out.append(
            Ob(
                "%s(%s)" % (f.inst.split("::")[-1], form(cr, f)),
                f,
                generic(cr, f),
                lambda I, a, g=g: g(I.val(a[0]), I.val(a[1])),
                rules,
                domain=d,
                **o,
            )
        )
    return out


def a_val(x):
    x = R(x)
    return x.a if isinstance(x, ESym) else x.f[0].f[0].t


# ------------------------------------------------------- constructors (values)
def nary(cr, name, rules, deep, **o):
    f = api(cr, EXPR, name)
    t = CONSTRUCT[name]
    out = []
    for n in (0, 1, 2):
        out.append(Ob("%s of %d" % (name, n), f, (lambda n: lambda I: [vec(I, n)])(n), t, rules, **o))
    out.append(Ob("%s of 3" % name, f, lambda I: [vec(I, 3)], t, rules, maxpaths=1500 if not deep else 40000, samples=600 if not deep else 20000, seconds=60 if not deep else 300, **o))
    q = dict(maxpay=3, maxpaths=20000, samples=5000, seconds=300) if deep else dict(maxpay=3, maxpaths=200, samples=300, seconds=10)
    q.update(o)
    out.append(Ob("%s of 2, longer operands" % name, f, lambda I: [vec(I, 2)], t, rules, **q))
    if deep:
        out.append(Ob("%s of 4" % name, f, lambda I: [vec(I, 4)], t, rules, maxpaths=100, samples=20000, seconds=300, **o))
    return out


def binary(cr, name, rules, deep, dom=None, **o):
    f = api(cr, EXPR, name)
    out = [Ob(name, f, lambda I: [ex(I), ex(I)], CONSTRUCT[name], rules, domain=dom, **o)]
    q = dict(maxpay=4, maxpaths=30000, samples=3000, seconds=200) if deep else dict(maxpay=3, maxpaths=200, samples=300, seconds=10)
    q.update(o)
    out.append(Ob(name + ", longer operands", f, lambda I: [ex(I), ex(I)], CONSTRUCT[name], rules, domain=dom, **q))
    return out


def rule_fns(cr):
    """every implementation of the crate's rule interface"""
    fs = {rule_name(f): f for f in trait_fns(cr, "Rule", "apply")}
    if not fs:
        raise Anchor("no implementation of the rule interface")
    return fs


def refs_of(x, out):
    if isinstance(x, dict):
        if isinstance(x.get("fn"), int):
            out.add(x["fn"])
        for v in x.values():
            refs_of(v, out)
    elif isinstance(x, list):
        for v in x:
            refs_of(v, out)


def reachable(cr, roots):
    """functions mentioned, directly or not, by the roots (calls and values)"""
    seen, todo = set(), [f.id for f in roots]
    while todo:
        i = todo.pop()
        if i in seen:
            continue
        seen.add(i)
        f = cr.fns.get(i)
        if f is None or not f.blocks:
            continue
        out = set()
        refs_of(f.blocks, out)
        todo += [j for j in out if j not in seen]
    return seen


def rules_from(cr, *names):
    """rules an entry point can apply"""
    fs = rule_fns(cr)
    seen = reachable(cr, [api(cr, EXPR, n) for n in names])
    return [n for n, f in fs.items() if f.id in seen]


RULE_OPTS = {
    "RationalsAddition": dict(maxpaths=2500, seconds=25),
    "MultiplicativeCommonFactor": dict(flips=(False, True)),
    "AdditiveCommonAddend": dict(flips=(False, True)),
}


def rules_obs(cr, names, rules, deep, **o):
    fs = rule_fns(cr)
    out = []
    for n in names:
        if n not in fs:
            raise Anchor("rule %s not found" % n)
        opt = dict(RULE_OPTS.get(n, {}))
        opt.update(o)
        if deep:
            opt.update(maxpaths=20000, seconds=200)
        out.append(Ob("%s::apply" % n, fs[n], lambda I: [exref(I, ex(I))], lambda I, a: I.val(a[0]), rules, **opt))
        q = dict(o)
        q.update(maxpay=4 if deep else 3, unroll=4, maxpaths=200, samples=8000 if deep else 400, seconds=120 if deep else 12)
        if n == "RationalsAddition" and not deep:
            q.update(samples=200)
        out.append(Ob("%s::apply, longer collections" % n, fs[n], lambda I: [exref(I, ex(I, frozenset([MUL, ADD, POW])))], lambda I, a: I.val(a[0]), rules, **q))
    return out


def recursive(cr, name, rules, deep, **o):
    f = api(cr, EXPR, name)
    out = [Ob(name, f, lambda I: [ex(I)], CONSTRUCT[name], rules, maxpay=3, **o)]
    if deep:
        out.append(Ob(name + ", longer collections", f, lambda I: [ex(I)], CONSTRUCT[name], rules, maxpay=5, unroll=6, maxpaths=20000, seconds=120, **o))
    return out


def div_dom(a):
    return [a_val(a[1])]


def base(cr, rules, deep, **o):
    return (
        nary(cr, "addition", rules, deep, **o)
        + nary(cr, "multiplication", rules, deep, **o)
        + binary(cr, "subtraction", rules, deep, **o)
        + binary(cr, "division", rules, deep, div_dom, **o)
        + powlog(cr, rules, deep, **o)
    )


def powlog(cr, rules, deep, **o):
    out = []
    for n in ("power", "pow", "logarithm", "log"):
        out += binary(cr, n, rules, deep, **o)
    return out


# ------------------------------------------------------------------ properties
V = ("value",)


def by_hand(cr, names, deep, dom=None):
    """operands built by hand with the public variants (not canonical: any item in
    any place, collections of no and of one item)"""
    out = []
    o = dict(raw=True, maxdepth=3, maxpaths=700 if not deep else 20000, samples=500 if not deep else 8000, seconds=15 if not deep else 200)
    for n in names:
        f = api(cr, EXPR, n)
        if n in ("addition", "multiplication"):
            out.append(Ob(n + " of 2, operands built by hand", f, lambda I: [vec(I, 2)], CONSTRUCT[n], V, **o))
        elif n in ("expand", "simplify"):
            out.append(Ob(n + ", operand built by hand", f, lambda I: [ex(I)], CONSTRUCT[n], V, **o))
        else:
            out.append(Ob(n + ", operands built by hand", f, lambda I: [ex(I), ex(I)], CONSTRUCT[n], V, domain=dom, **o))
    return out


def rules_by_hand(cr, names, deep):
    fs = rule_fns(cr)
    o = dict(raw=True, maxpaths=1500 if not deep else 20000, samples=300 if not deep else 8000, seconds=15 if not deep else 200)
    return [
        Ob("%s::apply, operand built by hand" % n, fs[n], lambda I: [exref(I, ex(I, frozenset([MUL, ADD, POW, LOG])))], lambda I, a: I.val(a[0]), V, **o)
        for n in names
    ]


def C01(cr, deep):
    return nary(cr, "addition", V, deep) + op_obs(cr, "Add") + by_hand(cr, ["addition"], deep) + lens.operands(cr, V, deep, ["addition", "Add"])


def C02(cr, deep):
    return nary(cr, "multiplication", V, deep) + op_obs(cr, "Mul") + by_hand(cr, ["multiplication"], deep) + lens.operands(cr, V, deep, ["multiplication", "Mul"])


def neg_obs(cr, rules=V, **o):
    fs = ops(cr, "Neg", EXPR)
    if len(fs) < 2:
        raise Anchor("negation of expressions")
    o.setdefault("maxpay", 3)
    return [Ob("neg(%s)" % form(cr, f), f, generic(cr, f), lambda I, a: neg(I.val(a[0])), rules, **o) for f in fs]


def all_ops(cr, rules, **o):
    """every operator form of expressions"""
    return op_obs(cr, "Add", rules, **o) + op_obs(cr, "Sub", rules, **o) + op_obs(cr, "Mul", rules, **o) + op_obs(cr, "Div", rules, **o) + neg_obs(cr, rules, **o)


def C03(cr, deep):
    return (
        binary(cr, "subtraction", V, deep)
        + binary(cr, "division", V, deep, div_dom)
        + op_obs(cr, "Sub")
        + op_obs(cr, "Div")
        + neg_obs(cr)
        + by_hand(cr, ["subtraction"], deep)
        + lens.operands(cr, V, deep, ["subtraction", "division", "Sub", "Div", "Neg"])
    )


def C04(cr, deep):
    return powlog(cr, V, deep) + by_hand(cr, ["logarithm"], deep) + lens.operands(cr, V, deep, ["power", "pow", "logarithm", "log"])


def expanding(cr):
    """the expansion rules: reachable from expand, or grouped with such a rule"""
    fs = rule_fns(cr)
    a = rules_from(cr, "expand")
    groups = {fs[n].inst.split(" as ")[-1] for n in a}
    return [n for n, f in fs.items() if n in a or f.inst.split(" as ")[-1] in groups]


# rules that hold for operands built by hand as well
LOOSE = ("MultiplicativeDistributive", "PowerDistributiveMultiplication", "InversePowerLog", "MultiplicativeCommonFactor")


def C05(cr, deep):
    a = expanding(cr)
    return (
        recursive(cr, "expand", V, deep)
        + rules_obs(cr, a, V, deep)
        + by_hand(cr, ["expand"], deep)
        + rules_by_hand(cr, [n for n in LOOSE if n in a], deep)
        + props3.whole(cr, "expand", deep)
        + lens.operands(cr, V, deep, ["expand", "rules"])
    )


def C06(cr, deep):
    a = expanding(cr)
    b = [n for n in rule_fns(cr) if n not in a]
    return (
        recursive(cr, "simplify", V, deep)
        + recursive(cr, "expand", V, False)
        + rules_obs(cr, b, V, deep)
        + rules_obs(cr, a, V, False)
        + by_hand(cr, ["simplify"], deep)
        + rules_by_hand(cr, [n for n in LOOSE if n in b], deep)
        + props3.whole(cr, "simplify", deep)
        + lens.operands(cr, V, deep, ["simplify", "expand", "rules"])
    )


CN = ("canon",)


def C13(cr, deep):
    return (
        nary(cr, "addition", CN, deep)
        + nary(cr, "multiplication", CN, deep)
        + binary(cr, "subtraction", CN, deep)
        + binary(cr, "division", CN, deep, div_dom)
        + powlog(cr, CN, deep)
        + recursive(cr, "expand", CN, False)
        + recursive(cr, "simplify", CN, False)
        + rules_obs(cr, list(rule_fns(cr)), CN, deep)
        + lens.operands(cr, CN, deep)
        + all_ops(cr, CN)
        + props3.whole(cr, "expand", deep, CN, True)
        + props3.whole(cr, "simplify", deep, CN, True)
    )


PN = ("panic",)


def C15(cr, deep):
    return (
        base(cr, PN, deep, bigfloat=True)
        + recursive(cr, "expand", PN, deep, bigfloat=True)
        + recursive(cr, "simplify", PN, deep, bigfloat=True)
        + rules_obs(cr, list(rule_fns(cr)), PN, deep, bigfloat=True)
        + lens.operands(cr, PN, deep, bigfloat=True)
        + all_ops(cr, PN, bigfloat=True)
        + props3.whole(cr, "expand", deep, PN, True, bigfloat=True)
        + props3.whole(cr, "simplify", deep, PN, True, bigfloat=True)
    )


EX = ("exact",)


def C16(cr, deep):
    return base(cr, EX, deep) + all_ops(cr, EX) + recursive(cr, "expand", EX, deep) + recursive(cr, "simplify", EX, deep) + rules_obs(cr, list(rule_fns(cr)), EX, deep) + lens.operands(cr, EX, deep) + props3.whole(cr, "expand", deep, EX, True) + props3.whole(cr, "simplify", deep, EX, True)


PROPS = {k: v for k, v in list(globals().items()) if k[0] == "C" and k[1:].isdigit()}

ASSUME = {
    "": [
        "standard library, num-bigint and num functions behave as modelled in engine/models.py",
        "collections are partitioned by length up to a bound; longer ones are covered only through the per-item behaviour seen within the bound",
        "public constructors are summarised at their call sites by the denotation this framework checks for them separately",
        "identities between terms are decided by evaluating them at random exact valuations that satisfy the path's facts",
        "expressions inside arguments have the canonical form that property C13 checks",
    ]
}


import lens  # noqa: E402
import order  # noqa: E402

PROPS.update({"C10": order.C10, "C11": order.C11, "C12": order.C12})
import props2  # noqa: E402

PROPS.update(props2.MINE)
import props3  # noqa: E402

PROPS.update(props3.MINE)
