"""What each public entry point denotes, and how calls to it are summarised
while another entry point is being analysed."""
import re

import terms as tm
from terms import add, mul, neg, sub, div, pow_, log_, fn as tfn, const
from interp import (
    Adt, BoxV, EXPR, ESym, INT, KINDS, Num, R, REAL, Ref, SYM, Seq, StrV, Unsupported, Interp, is_expr, strip, NUMK, Heap, CA,
)
from models import M
import models2

RULES_S = ["InversePowerLog", "AdditiveCommonAddend", "MultiplicativeCommonFactor", "SingleAlgebraicDenominator", "RationalsAddition", "RationalsMultiplication"]
RULES_E = ["MultiplicativeDistributive", "PowerDistributiveAddition", "PowerDistributiveMultiplication"]


class Missing(Exception):
    pass


def inherent(cr, ty, name):
    """inherent method `name` of type `ty` (module path ignored)"""
    out = []
    for f in cr.fns.values():
        if not f.local or not f.inst.endswith("::" + name):
            continue
        p = f.inst[: -len(name) - 2]
        if p == ty or p.endswith("<impl %s>" % ty):
            out.append(f)
    return out[0] if len(out) == 1 else None


def need(cr, ty, name):
    f = inherent(cr, ty, name)
    if f is None:
        raise Missing("%s::%s" % (ty.split("::")[-1], name))
    return f


def trait_fns(cr, trait, method):
    return [f for (tr, ty, m), fs in cr.impl_m.items() if tr == trait and m == method for f in fs]


def nums(x):
    x = R(strip(x))
    if isinstance(x, ESym):
        return len(x.kinds) == 1 and next(iter(x.kinds)) in NUMK
    if isinstance(x, Adt) and x.n == EXPR:
        return x.v in NUMK
    if isinstance(x, Seq):
        return all(nums(y) for y in x.items)
    return False


def literal(I, x):
    x = strip(x)
    if isinstance(x, Seq):
        return all(literal(I, y) for y in x.items)
    return nums(x) and I.val(x).op == "c"


class Contract:
    def __init__(self, name, term, inl=True):
        self.name, self.term, self.inl = name, term, inl

    def inline(self, I, args):
        """calls on plain numbers are followed, one constructor deep (further
        when every number is a literal); everything else is summarised"""
        if not self.inl or not all(nums(a) for a in args):
            return False
        if I.inl_depth < I.inl_max:
            return True
        return all(literal(I, a) for a in args) and I.inl_depth < 12

    def apply(self, I, args, where):
        args = [strip(a) for a in args]
        if I.unordered and self.name in ("addition", "multiplication"):
            # the order of operands does not matter (that is property C14)
            key = (self.name, tuple(sorted(repr(I.skey(z)) for z in args[0].items)))
        else:
            key = (self.name,) + tuple(I.skey(a) for a in args)
        memo = I.ctx.contract_memo
        r = memo.get(key)
        if r is None:
            t = self.term(I, args)
            r = I.sym(KINDS, inp=False, prefix="r")
            r.note = self.name
            I.define(r, t)
            memo[key] = r
            I.calls_seen.add(self.name)
        return r


def vs(I, s):
    return [I.val(x) for x in s.items]


def t_add(I, a):
    return add(*vs(I, a[0]))


def t_mul(I, a):
    return mul(*vs(I, a[0]))


def t_bin(f):
    return lambda I, a: f(I.val(a[0]), I.val(a[1]))


def t_id(I, a):
    return I.val(a[0])


CONSTRUCT = {
    "addition": t_add,
    "multiplication": t_mul,
    "subtraction": t_bin(sub),
    "division": t_bin(div),
    "power": t_bin(pow_),
    "pow": t_bin(pow_),
    "logarithm": t_bin(log_),
    "log": t_bin(log_),
    "expand": t_id,
    "simplify": t_id,
}


def build(cr):
    """an interpreter with summaries for the public constructors"""
    I = Interp(cr, M)
    for n, t in CONSTRUCT.items():
        f = inherent(cr, EXPR, n)
        if f is not None:
            I.contracts[f.id] = Contract(n, t)
    for f in trait_fns(cr, "Rule", "apply"):
        I.contracts[f.id] = Contract(rule_name(f), t_id, inl=False)
    sp = {}
    for (tr, ty, m), fs in cr.impl_m.items():
        if ty == EXPR:
            k = {("PartialEq", "eq"): "eq", ("Ord", "cmp"): "cmp", ("PartialOrd", "partial_cmp"): "partial_cmp", ("Clone", "clone"): "clone"}.get((tr, m))
            if k:
                for f in fs:
                    sp[f.id] = k
    I.spec_methods = sp
    return I


def rule_name(f):
    m = re.search(r"(\w+) as [\w:]*Rule>::apply", f.inst)
    return m.group(1) if m else f.inst


# ------------------------------------------------------- abstract arguments
def ex(I, kinds=KINDS):
    e = I.sym(kinds, inp=True, prefix="x")
    if len(kinds) == 1:
        I.determined(e, next(iter(kinds)))
    return e


def exref(I, e):
    return Ref([e], 0)


def vec(I, n, kinds=KINDS):
    return Seq([ex(I, kinds) for _ in range(n)])


def sym_int(I, name="n"):
    n = I.ctx.fresh(name)
    I.ctx.kinds[n] = "int"
    a = tm.atom(n)
    I.ctx.facts.integral.add(a)
    return Adt(SYM, 0, [Num("BigInt", a)])


def sym_real(I, name="f"):
    n = I.ctx.fresh(name)
    I.ctx.kinds[n] = "real"
    return Adt(SYM, 0, [Num("F64", tm.atom(n), True)])
