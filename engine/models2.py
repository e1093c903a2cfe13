"""More std / num items, for code that uses them after a change."""
import unicodedata
from fractions import Fraction

import terms as tm
from terms import const, fn as tfn, pow_
from interp import (
    Adt, Clo, Cut, FLOATS, FnV, Heap, It, MapV, Num, OPTION, ORDERING, Panic, PyFn, R, RANGES, RESULT, Ref, STOP, Seq, StrV, Tup, UNIT, Unsupported,
    none, ordv, some, strip,
)
from models import (
    M, NTY, S, absv, boxed_deref, cut_str, display, drain, emit, gen_filter, head, idx, insertion_sort, ipow, it_list, join_p, m, num, oob, opt,
    panic, rng, self_type, sgn, sign_enum, str_len, to_iter, truth, type_args, usize,
)


# ---------------------------------------------------------------- iterators
def back(it, what):
    if it.back is None:
        raise Unsupported(what)
    return it.back


@m("Iterator::rposition")
def _(I, a, t, w):
    l = drain(to_iter(I, a[0]))
    for i in range(len(l) - 1, -1, -1):
        if truth(I.invoke(a[1], [l[i]], w)):
            return some(usize(i))
    return none()


@m("Iterator::rfind", "DoubleEndedIterator::rfind")
def _(I, a, t, w):
    src = back(to_iter(I, a[0]), "rfind")
    while True:
        x = src()
        if x is STOP:
            return none()
        if truth(I.invoke(a[1], [Ref([x], 0)], w)):
            return some(x)


@m("Iterator::nth_back", "DoubleEndedIterator::nth_back")
def _(I, a, t, w):
    src = back(to_iter(I, a[0]), "nth_back")
    x = STOP
    for _i in range(I.concrete(a[1], "nth_back") + 1):
        x = src()
        if x is STOP:
            break
    return opt(x)


@m("Iterator::lt", "Iterator::le", "Iterator::gt", "Iterator::ge")
def _(I, a, t, w):
    r = I.cmpv(Seq(drain(to_iter(I, a[0]))), Seq(drain(to_iter(I, a[1]))))
    if r is None:
        return False
    return {"lt": r < 0, "le": r <= 0, "gt": r > 0, "ge": r >= 0}[t["def"].split("::")[-1]]


def sorted_by(l, c):
    for x, y in zip(l, l[1:]):
        if not c(x, y):
            return False
    return True


@m("Iterator::is_sorted", "slice::is_sorted")
def _(I, a, t, w):
    return sorted_by(drain(to_iter(I, a[0])), lambda x, y: (lambda r: r is not None and r <= 0)(I.cmpv(x, y)))


@m("Iterator::is_sorted_by", "slice::is_sorted_by")
def _(I, a, t, w):
    return sorted_by(drain(to_iter(I, a[0])), lambda x, y: truth(I.invoke(a[1], [Ref([x], 0), Ref([y], 0)] if "slice" not in t["def"] else [x, y], w)))


@m("Iterator::is_sorted_by_key", "slice::is_sorted_by_key")
def _(I, a, t, w):
    l = [I.invoke(a[1], [x], w) for x in drain(to_iter(I, a[0]))]
    return sorted_by(l, lambda x, y: (lambda r: r is not None and r <= 0)(I.cmpv(x, y)))


@m("Iterator::try_for_each")
def _(I, a, t, w):
    it = to_iter(I, a[0])
    last = None
    while True:
        x = it.nxt()
        if x is STOP:
            if last is not None:
                return last
            i = t.get("inst", "")
            if "Option<" in i:
                return some(UNIT)
            if "Result<" in i:
                return Adt(RESULT, 0, [UNIT])
            raise Unsupported("try_for_each")
        last = I.invoke(a[1], [x], w)
        if not ((last.n == OPTION and last.v == 1) or (last.n == RESULT and last.v == 0)):
            return last


@m("Iterator::cycle")
def _(I, a, t, w):
    l = drain(to_iter(I, a[0]))
    st = [0]

    def nxt():
        if not l:
            return STOP
        st[0] += 1
        if st[0] > 400:
            raise Cut("endless iteration")
        x = l[(st[0] - 1) % len(l)]
        return x if isinstance(x, Ref) else I.clone(x)

    return It(nxt)


@m("iter::zip", "zip::zip")
def _(I, a, t, w):
    return M["Iterator::zip"](I, a, t, w)


@m("iter::repeat_with", "repeat_with::repeat_with")
def _(I, a, t, w):
    st = [0]

    def nxt():
        st[0] += 1
        if st[0] > 400:
            raise Cut("endless iteration")
        return I.invoke(a[0], [], w)

    return It(nxt)


@m("iter::repeat_n", "repeat_n::repeat_n")
def _(I, a, t, w):
    k = I.concrete(a[1], "repeat")
    return it_list([I.clone(a[0]) if not isinstance(a[0], Ref) else a[0] for _ in range(k)])


@m("Peekable::next_if", "Peekable::next_if_eq", "Peekable::peek_mut")
def _(I, a, t, w):
    n = t["def"].split("::")[-1]
    p = M["Peekable::peek"](I, [a[0]], t, w)
    if n == "peek_mut" or p.v == 0:
        return p
    x = p.f[0]
    ok = truth(I.invoke(a[1], [x], w)) if n == "next_if" else I.eqv(x, a[1])
    return M["Iterator::next"](I, [a[0]], t, w) if ok else none()


# ------------------------------------------------------------------ slices
def sub_seq(items):
    return Ref([Seq(items)], 0)


class View(Seq):
    """a part of a slice whose writes reach the whole: written back on use is not
    modelled, so only reads are allowed"""


@m("Vec::dedup_by_key", "Vec::dedup_by", "slice::dedup_by", "slice::dedup_by_key")
def _(I, a, t, w):
    s = S(a[0])
    out = []
    bykey = t["def"].endswith("_key")
    for x in s.items:
        if out:
            if bykey:
                same = I.eqv(I.invoke(a[1], [Ref([x], 0)], w), I.invoke(a[1], [Ref(out, len(out) - 1)], w))
            else:
                same = truth(I.invoke(a[1], [Ref([x], 0), Ref(out, len(out) - 1)], w))
            if same:
                continue
        out.append(x)
    s.items[:] = out
    return UNIT


@m("slice::chunks_exact")
def _(I, a, t, w):
    s = S(a[0])
    k = I.concrete(a[1], "chunks", 1)
    return it_list([sub_seq(s.items[i : i + k]) for i in range(0, len(s.items) - k + 1, k)])


@m("slice::rchunks")
def _(I, a, t, w):
    s = S(a[0])
    k = I.concrete(a[1], "chunks", 1)
    out = []
    i = len(s.items)
    while i > 0:
        out.append(sub_seq(s.items[max(0, i - k) : i]))
        i -= k
    return it_list(out)


@m("slice::chunk_by")
def _(I, a, t, w):
    s = S(a[0])
    out = []
    for i in range(len(s.items)):
        if out and truth(I.invoke(a[1], [Ref(s.items, i - 1), Ref(s.items, i)], w)):
            out[-1].append(s.items[i])
        else:
            out.append([s.items[i]])
    return it_list([sub_seq(x) for x in out])


@m("slice::split")
def _(I, a, t, w):
    s = S(a[0])
    out = [[]]
    for i in range(len(s.items)):
        if truth(I.invoke(a[1], [Ref(s.items, i)], w)):
            out.append([])
        else:
            out[-1].append(s.items[i])
    return it_list([sub_seq(x) for x in out])


@m("slice::split_at", "slice::split_at_checked")
def _(I, a, t, w):
    s = S(a[0])
    k = I.concrete(a[1], "split", 0, len(s.items) + 1)
    c = t["def"].endswith("checked")
    if k > len(s.items):
        if c:
            return none()
        oob(I, w)
    r = Tup([sub_seq(s.items[:k]), sub_seq(s.items[k:])])
    return some(r) if c else r


@m("slice::rotate_left", "slice::rotate_right", "VecDeque::rotate_left", "VecDeque::rotate_right")
def _(I, a, t, w):
    s = S(a[0])
    k = I.concrete(a[1], "rotation", 0, len(s.items) + 1)
    if k > len(s.items):
        oob(I, w)
    if t["def"].endswith("right"):
        k = len(s.items) - k
    s.items[:] = s.items[k:] + s.items[:k]
    return UNIT


def bsearch(I, items, cmp):
    """the library's own probing order: where several positions would do, which one
    is found is not specified, so code that depends on it is judged on this one"""
    n = len(items)
    lo = 0
    if n == 0:
        return Adt(RESULT, 1, [usize(0)])
    base, size = 0, n
    while size > 1:
        half = size // 2
        mid = base + half
        if cmp(items, mid) <= 0:
            base = mid
        size -= half
    c = cmp(items, base)
    if c == 0:
        return Adt(RESULT, 0, [usize(base)])
    return Adt(RESULT, 1, [usize(base + (1 if c < 0 else 0))])


@m("slice::binary_search", "VecDeque::binary_search")
def _(I, a, t, w):
    def cmp(items, i):
        r = I.cmpv(items[i], a[1])
        if r is None:
            raise Unsupported("unordered")
        return r

    return bsearch(I, S(a[0]).items, cmp)


@m("slice::binary_search_by")
def _(I, a, t, w):
    return bsearch(I, S(a[0]).items, lambda items, i: I.invoke(a[1], [Ref(items, i)], w).v - 1)


@m("slice::binary_search_by_key")
def _(I, a, t, w):
    return bsearch(I, S(a[0]).items, lambda items, i: I.cmpv(I.invoke(a[2], [Ref(items, i)], w), a[1]))


@m("slice::partition_point")
def _(I, a, t, w):
    r = bsearch(I, S(a[0]).items, lambda items, i: -1 if truth(I.invoke(a[1], [Ref(items, i)], w)) else 1)
    return r.f[0]


@m("slice::starts_with", "slice::ends_with", "slice::strip_prefix", "slice::strip_suffix")
def _(I, a, t, w):
    s, p = S(a[0]).items, S(a[1]).items
    n = t["def"].split("::")[-1]
    pre = n in ("starts_with", "strip_prefix")
    k = len(p)
    ok = k <= len(s) and all(I.eqv(x, y) for x, y in zip(s[:k] if pre else s[len(s) - k :], p))
    if n.endswith("with"):
        return ok
    return some(sub_seq(s[k:] if pre else s[: len(s) - k])) if ok else none()


@m("slice::fill")
def _(I, a, t, w):
    s = S(a[0])
    s.items[:] = [I.clone(a[1]) for _ in s.items]
    return UNIT


@m("slice::repeat")
def _(I, a, t, w):
    s = S(a[0])
    k = I.concrete(a[1], "repeat")
    return Seq([I.clone(x) for _ in range(k) for x in s.items])


@m("Vec::resize")
def _(I, a, t, w):
    s = S(a[0])
    k = I.concrete(a[1], "resize", 0, len(s.items) + 2)
    if k <= len(s.items):
        del s.items[k:]
    else:
        s.items.extend([I.clone(a[2]) for _ in range(k - len(s.items))])
    return UNIT


@m("Vec::extend_from_within")
def _(I, a, t, w):
    s = S(a[0])
    lo, hi = rng(I, a[1], len(s.items))
    s.items.extend([I.clone(x) for x in s.items[lo:hi]])
    return UNIT


@m("Vec::splice")
def _(I, a, t, w):
    s = S(a[0])
    lo, hi = rng(I, a[1], len(s.items))
    r = s.items[lo:hi]
    s.items[lo:hi] = drain(to_iter(I, a[2]))
    return it_list(r)


@m("Vec::pop_if", "VecDeque::pop_back_if")
def _(I, a, t, w):
    s = S(a[0])
    if s.items and truth(I.invoke(a[1], [Ref(s.items, len(s.items) - 1)], w)):
        return some(s.items.pop())
    return none()


@m("slice::split_first_mut", "slice::split_last_mut")
def _(I, a, t, w):
    raise Unsupported(t["def"])


@m("slice::get_unchecked", "slice::get_unchecked_mut")
def _(I, a, t, w):
    r = M["slice::get"](I, a, t, w)
    if r.v == 0:
        oob(I, w)
    return r.f[0]


@m("Vec::capacity", "String::capacity", "BinaryHeap::capacity", "HashMap::capacity", "HashSet::capacity", "VecDeque::capacity")
def _(I, a, t, w):
    """whatever the history of the value left there"""
    x = boxed_deref(a[0])
    n = I.ctx.fresh("cap")
    I.ctx.kinds[n] = "int"
    r = tm.atom(n)
    I.ctx.facts.integral.add(r)
    I.ctx.facts.assume(">=", r, str_len(I, x) if isinstance(x, StrV) else const(len(S(x).items)))
    return Num("Usize", r)


@m("iter::min_by_unused")
def _(I, a, t, w):
    raise Unsupported("unused")


# ----------------------------------------------------------------- integers
def mag(I, x, w):
    return absv(I, x, w).t


@m("BigInt::bits", "BigUint::bits")
def _(I, a, t, w):
    x = num(a[0])
    r = tfn("bitlen", x.t)
    I.ctx.facts.integral.add(r)
    I.ctx.facts.assume(">=", r, tm.ZERO)
    return Num("U64", r)


def digits(I, x, bits, w, most=4):
    """the digits of the magnitude, least first; partitions on how many there are"""
    v = mag(I, x, w)
    if v.op == "c":
        n = int(v.args[0])
        out = []
        while n:
            out.append(const(n & (2**bits - 1)))
            n >>= bits
        return out
    for k in range(most + 1):
        if I.test("<", Num("BigInt", v), Num("BigInt", const(2 ** (bits * k)))):
            break
    else:
        raise Cut("more than %d digits" % most)
    out = []
    for i in range(k):
        d = tfn("fmod", tfn("fdiv", v, const(2 ** (bits * i))), const(2**bits)) if i else tfn("fmod", v, const(2**bits))
        I.ctx.facts.integral.add(d)
        out.append(d)
    return out


for _b in (32, 64):
    def _dig(I, a, t, w, b=_b):
        x = num(a[0])
        s = Seq([Num("U%d" % b, d) for d in digits(I, x, b, w)])
        return Tup([sign_enum(I, sgn(I, x)), s]) if "BigInt" in t["def"] or "bigint" in t["def"] else s

    def _diter(I, a, t, w, b=_b):
        return it_list([Num("U%d" % b, d) for d in digits(I, num(a[0]), b, w)])

    M["BigInt::to_u%d_digits" % _b] = M["BigUint::to_u%d_digits" % _b] = _dig
    M["BigInt::iter_u%d_digits" % _b] = M["BigUint::iter_u%d_digits" % _b] = _diter


@m("BigInt::to_bytes_le", "BigInt::to_bytes_be", "BigUint::to_bytes_le", "BigUint::to_bytes_be")
def _(I, a, t, w):
    x = num(a[0])
    l = [Num("U8", d) for d in digits(I, x, 8, w, 9)] or [Num("U8", tm.ZERO)]
    if t["def"].endswith("be"):
        l.reverse()
    return Tup([sign_enum(I, sgn(I, x)), Seq(l)]) if "BigInt" in t["def"] else Seq(l)


@m("BigInt::trailing_zeros", "BigUint::trailing_zeros")
def _(I, a, t, w):
    x = num(a[0])
    if I.test("==", x, Num(x.ty, tm.ZERO)):
        return none()
    r = tfn("ctz", x.t)
    I.ctx.facts.integral.add(r)
    return some(Num("U64", r))


WBITS = {"Isize": 64, "Usize": 64, "I64": 64, "U64": 64, "I32": 32, "U32": 32, "I16": 16, "U16": 16, "I8": 8, "U8": 8, "I128": 128, "U128": 128}


def width_fn(name):
    def f(I, a, t, w):
        x = num(a[0])
        n = WBITS.get(x.ty)
        if n is None:
            raise Unsupported(name)
        if name == "trailing_zeros":
            if I.test("==", x, Num(x.ty, tm.ZERO)):
                return Num("U32", const(n))
            r = tfn("ctz", x.t)
        elif name == "leading_zeros":
            if I.test("<", x, Num(x.ty, tm.ZERO)):
                return Num("U32", tm.ZERO)
            r = tm.sub(const(n), tfn("bitlen", x.t))
        elif name == "count_ones":
            r = tfn("popcount", tfn("fmod", x.t, const(2**n)))
        elif name == "is_power_of_two":
            return I.test("==", Num("U32", tfn("popcount", x.t)), Num("U32", tm.ONE))
        elif name == "ilog2":
            if not I.test(">", x, Num(x.ty, tm.ZERO)):
                raise Panic("argument of integer logarithm must be positive", w, [list(z) for z in I.stack])
            r = tm.sub(tfn("bitlen", x.t), tm.ONE)
        I.ctx.facts.integral.add(r)
        return Num("U32", r)

    return f


for _t in ("isize", "usize", "i64", "u64", "i32", "u32", "i16", "u16", "i128", "u128", "u8", "i8"):
    for _n in ("trailing_zeros", "leading_zeros", "count_ones", "is_power_of_two", "ilog2"):
        M.setdefault("%s::%s" % (_t, _n), width_fn(_n))


def euclid(which):
    def f(I, a, t, w):
        x, y = num(a[0]), num(a[1])
        if x.ty in FLOATS:
            raise Unsupported("euclidean division of floats")
        if I.test("==", y, Num(y.ty, tm.ZERO)):
            raise Panic("attempt to divide by zero", w, [list(z) for z in I.stack])
        r = tfn("fmod", x.t, tfn("abs", y.t))
        I.ctx.facts.integral.add(r)
        I.ctx.facts.assume(">=", r, tm.ZERO)
        if which == "rem":
            return Num(x.ty, r, x.tnt or y.tnt)
        q = tfn("idiv", tm.sub(x.t, r), y.t)
        I.ctx.facts.integral.add(q)
        return Num(x.ty, q, x.tnt or y.tnt)

    return f


for _t in ("isize", "usize", "i64", "u64", "i32", "u32", "i128", "u128", "Euclid", "BigInt"):
    M.setdefault(_t + "::rem_euclid", euclid("rem"))
    M.setdefault(_t + "::div_euclid", euclid("div"))


def root(I, x, k, w):
    if k == 2 and x.ty not in FLOATS and I.test("<", x, Num(x.ty, tm.ZERO)):
        raise Panic("square root is imaginary", w, [list(z) for z in I.stack])
    r = tfn("iroot", x.t, const(k))
    I.ctx.facts.integral.add(r)
    return Num(x.ty, r, x.tnt)


for _p in ("BigInt", "BigUint", "Roots", "isize", "i64", "usize", "u64", "roots", "num", "i32", "u32"):
    if _p != "num":
        M.setdefault(_p + "::sqrt", lambda I, a, t, w: root(I, num(a[0]), 2, w))
        M.setdefault(_p + "::cbrt", lambda I, a, t, w: root(I, num(a[0]), 3, w))
    M.setdefault(_p + "::isqrt", lambda I, a, t, w: root(I, num(a[0]), 2, w))
    M.setdefault(_p + "::nth_root", lambda I, a, t, w: root(I, num(a[0]), I.concrete(num(a[1]), "root", 1, 4), w))


@m("isize::abs_diff", "usize::abs_diff", "i64::abs_diff", "u64::abs_diff", "i32::abs_diff", "u32::abs_diff")
def _(I, a, t, w):
    x, y = num(a[0]), num(a[1])
    d = tm.sub(x.t, y.t)
    r = d if I.test(">=", x, y) else tm.neg(d)
    return Num({"Isize": "Usize", "I64": "U64", "I32": "U32"}.get(x.ty, x.ty), r)


@m("Signed::abs_sub", "num::abs_sub", "sign::abs_sub")
def _(I, a, t, w):
    x, y = num(a[0]), num(a[1])
    return Num(x.ty, tm.ZERO) if I.test("<=", x, y) else I.num_bin("Sub", x, y, w)


@m("Ord::clamp", "num::clamp", "f64::clamp", "clamp::clamp", "isize::clamp")
def _(I, a, t, w):
    x, lo, hi = (R(strip(z)) for z in a)
    for y, s in ((lo, -1), (hi, 1)):
        if I.cmpv(x, y) == s:
            return y
    return x


@m("BigInt::modpow", "BigUint::modpow")
def _(I, a, t, w):
    x, y, z = (num(q) for q in a)
    k = I.concrete(y, "exponent", 0, 4)
    p = tm.ONE if not k else tm.mul(*([x.t] * k))
    r = tfn("fmod", p, z.t)
    I.ctx.facts.integral.add(r)
    return Num(x.ty, r)


@m("pow::checked_pow", "num::checked_pow")
def _(I, a, t, w):
    r = ipow(I, num(a[0]), num(a[1]), w)
    return some(r) if r.ty not in RANGES or I.in_range(r, r.ty) else none()


@m("BitOr::bitor", "BitXor::bitxor")
def _(I, a, t, w):
    x, y = R(strip(a[0])), R(strip(a[1]))
    if isinstance(x, bool):
        return (x or y) if "bitor" in t["def"] else x != y
    if isinstance(x, Num) and isinstance(y, Num) and x.t.op == y.t.op == "c":
        p, q = int(x.t.args[0]), int(y.t.args[0])
        return Num(x.ty, const(p | q if t["def"].endswith("bitor") else p ^ q))
    raise Unsupported("bit operation")


M["f64::cbrt"] = lambda I, a, t, w: Num("F64", tfn("cbrt", num(a[0]).t), True)
M["f64::exp2"] = M["Float::exp2"] = lambda I, a, t, w: Num("F64", pow_(const(2), num(a[0]).t), True)
M["f64::exp_m1"] = M["Float::exp_m1"] = lambda I, a, t, w: Num("F64", tm.sub(tfn("exp", num(a[0]).t), tm.ONE), True)
M["f64::ln_1p"] = M["Float::ln_1p"] = lambda I, a, t, w: Num("F64", tfn("ln", tm.add(num(a[0]).t, tm.ONE)), True)
M["f64::hypot"] = lambda I, a, t, w: Num("F64", pow_(tm.add(tm.mul(num(a[0]).t, num(a[0]).t), tm.mul(num(a[1]).t, num(a[1]).t)), const(Fraction(1, 2))), True)


@m("f64::copysign", "Float::copysign")
def _(I, a, t, w):
    x, y = num(a[0]), num(a[1])
    r = absv(I, x, w)
    return r if I.test(">=", y, Num(y.ty, tm.ZERO)) else Num(x.ty, tm.neg(r.t), True)


@m("f64::is_normal", "f64::is_subnormal")
def _(I, a, t, w):
    x = num(a[0])
    if x.t.op == "special":
        return False
    z = I.test("==", x, Num(x.ty, tm.ZERO))
    sub = False if z else I.test("<", absv(I, x, w), Num("F64", const(Fraction(1, 2**1022))))
    return sub if t["def"].endswith("subnormal") else not (z or sub)


# ------------------------------------------------------------------ strings
def lit(x):
    """the characters of a known string, or None"""
    x = strip(x)
    if isinstance(x, StrV) and all(isinstance(z, str) for z in x.p):
        return "".join(x.p)
    return None


def S1(x):
    return StrV((x,) if x else ())


def sref(x):
    return Ref([S1(x)], 0)


def pattern(I, p, w):
    """matcher(s, i) -> end of a match at i, or -1"""
    p = strip(p)
    l = lit(p)
    if l is not None:
        return lambda s, i: i + len(l) if s.startswith(l, i) else -1
    if isinstance(p, (Clo, FnV, PyFn)):
        return lambda s, i: i + 1 if i < len(s) and truth(I.invoke(p, [S1(s[i])], w)) else -1
    if isinstance(p, Seq):
        cs = [lit(z) for z in p.items]
        if None not in cs:
            return lambda s, i: i + 1 if i < len(s) and s[i] in cs else -1
    raise Unsupported("string pattern")


def nchar(s, i):
    return len(s[:i].encode("utf8"))


def matches(s, f):
    out = []
    i = 0
    while i <= len(s):
        e = f(s, i)
        if e >= 0:
            out.append((i, e))
            i = e if e > i else i + 1
        else:
            i += 1
    return out


OLD = {}


def known(*keys):
    """the exact result where every character is known, else the older model"""

    def d(f):
        for k in keys:
            OLD[k] = M.get(k)

        def g(I, a, t, w):
            n = t["def"].split("::")[-1]
            s = lit(a[0])
            if s is None:
                o = OLD.get("str::" + n)
                if o is None:
                    raise Unsupported("str::%s of an unknown string" % n)
                return o(I, a, t, w)
            return f(I, s, a, t, w, n)

        for k in keys:
            M[k] = g
        return g

    return d


@known("str::trim_matches", "str::trim_start_matches", "str::trim_end_matches", "str::trim_left", "str::trim_right", "str::trim", "str::trim_start", "str::trim_end",
       "str::trim_ascii", "str::trim_ascii_start", "str::trim_ascii_end")
def _(I, s, a, t, w, n):
    f = pattern(I, a[1], w) if len(a) > 1 else (lambda s, i: i + 1 if i < len(s) and s[i].isspace() else -1)
    if "end" not in n and n != "trim_right":
        while s:
            e = f(s, 0)
            if e <= 0:
                break
            s = s[e:]
    if "start" not in n and n != "trim_left":
        going = True
        while going and s:
            going = False
            for i in range(len(s) - 1, -1, -1):
                if f(s, i) == len(s):
                    s = s[:i]
                    going = True
                    break
                if len(a) <= 1 or not lit(a[1]):
                    break
    return sref(s)


@known("str::strip_prefix", "str::strip_suffix")
def _(I, s, a, t, w, n):
    f = pattern(I, a[1], w)
    if n == "strip_prefix":
        e = f(s, 0)
        return some(sref(s[e:])) if e >= 0 else none()
    for i in range(len(s), -1, -1):
        if f(s, i) == len(s):
            return some(sref(s[:i]))
    return none()


@known("str::starts_with", "str::ends_with", "str::contains", "str::find", "str::rfind", "str::matches", "str::split", "str::split_once", "str::rsplit_once",
       "str::splitn", "str::rsplit", "str::replace", "str::split_terminator", "str::replacen", "str::match_indices", "str::split_inclusive")
def _(I, s, a, t, w, n):
    p = a[2] if n == "splitn" else a[1]
    f = pattern(I, p, w)
    if n == "starts_with":
        return f(s, 0) >= 0
    if n == "ends_with":
        return any(f(s, i) == len(s) for i in range(len(s) + 1))
    ms = matches(s, f)
    if n == "contains":
        return bool(ms)
    if n == "find":
        return some(usize(nchar(s, ms[0][0]))) if ms else none()
    if n == "rfind":
        return some(usize(nchar(s, ms[-1][0]))) if ms else none()
    if n == "matches":
        return it_list([sref(s[i:e]) for i, e in ms])
    if n == "match_indices":
        return it_list([Tup([usize(nchar(s, i)), sref(s[i:e])]) for i, e in ms])
    if n in ("split_once", "rsplit_once"):
        if not ms:
            return none()
        i, e = ms[0] if n == "split_once" else ms[-1]
        return some(Tup([sref(s[:i]), sref(s[e:])]))
    if n == "splitn":
        ms = ms[: max(0, I.concrete(a[1], "splitn") - 1)]
    if n == "replacen":
        ms = ms[: I.concrete(a[3], "replacen")]
    parts, k = [], 0
    for i, e in ms:
        parts.append(s[k:e] if n == "split_inclusive" else s[k:i])
        k = e
    parts.append(s[k:])
    if n in ("replace", "replacen"):
        r = lit(a[2])
        if r is None:
            raise Unsupported("str::replace")
        return S1(r.join(parts))
    if n in ("split_terminator", "split_inclusive") and not parts[-1]:
        parts.pop()
    if n == "rsplit":
        parts.reverse()
    return it_list([sref(x) for x in parts])


@known("str::split_whitespace", "str::lines", "str::split_ascii_whitespace")
def _(I, s, a, t, w, n):
    return it_list([sref(x) for x in (s.splitlines() if n == "lines" else s.split())])


@known("str::to_lowercase", "str::to_uppercase", "str::to_ascii_lowercase", "str::to_ascii_uppercase")
def _(I, s, a, t, w, n):
    low = n.endswith("lowercase")
    if "ascii" in n:
        return S1("".join((c.lower() if low else c.upper()) if c.isascii() else c for c in s))
    return S1(s.lower() if low else s.upper())


@known("str::repeat")
def _(I, s, a, t, w, n):
    return S1(s * I.concrete(a[1], "repeat"))


@known("str::chars", "str::char_indices", "str::bytes", "str::as_bytes", "String::into_bytes", "String::as_bytes")
def _(I, s, a, t, w, n):
    if n == "chars":
        return it_list([S1(c) for c in s])
    if n == "char_indices":
        return it_list([Tup([usize(nchar(s, i)), S1(c)]) for i, c in enumerate(s)])
    b = [Num("U8", const(x)) for x in s.encode("utf8")]
    if n == "bytes":
        return it_list(b)
    return Seq(b) if n == "into_bytes" else Ref([Seq(b)], 0)


@known("str::is_ascii", "str::is_char_boundary")
def _(I, s, a, t, w, n):
    if n == "is_ascii":
        return s.isascii()
    k = I.concrete(a[1], "boundary", 0, 64)
    b = s.encode("utf8")
    return k == len(b) or (k < len(b) and (b[k] & 0xC0) != 0x80)


@known("str::split_at")
def _(I, s, a, t, w, n):
    k = I.concrete(a[1], "split", 0, 64)
    b = s.encode("utf8")
    if k > len(b):
        oob(I, w)
    try:
        return Tup([sref(b[:k].decode("utf8")), sref(b[k:].decode("utf8"))])
    except UnicodeDecodeError:
        oob(I, w, "not a character boundary")


FITS = {"isize": "Isize", "usize": "Usize", "i64": "I64", "u64": "U64", "i32": "I32", "u32": "U32", "i16": "I16", "u16": "U16", "i8": "I8", "u8": "U8", "i128": "I128", "u128": "U128"}


@m("str::parse", "FromStr::from_str", "Num::from_str_radix", "BigInt::parse_bytes", "isize::from_str_radix", "usize::from_str_radix")
def _(I, a, t, w):
    s = lit(a[0])
    inst = t.get("inst", "")
    ty = (type_args(inst)[-1:] or [""])[0] if t["def"].endswith("parse") else self_type(inst)
    h = ty.split("::")[-1].strip(">")
    bad = Adt(RESULT, 1, [UNIT])
    if s is None:
        x = strip(a[0])
        if isinstance(x, StrV) and len(x.p) == 1 and isinstance(x.p[0], tuple) and x.p[0][0] == "num" and t["def"].endswith("parse"):
            # what was printed reads back
            _k, nty, v = x.p[0]
            if nty not in FLOATS and h in FITS:
                n = Num("BigInt", v)
                return Adt(RESULT, 0, [Num(FITS[h], v)]) if I.in_range(n, FITS[h]) else bad
            if h == "BigInt" and nty not in FLOATS:
                return Adt(RESULT, 0, [Num("BigInt", v)])
            if h in ("f64",):
                return Adt(RESULT, 0, [Num("F64", v, True)])
        raise Unsupported("parse of an unknown string")
    if h in FITS or h in ("BigInt", "BigUint"):
        d = s[1:] if s[:1] in ("+", "-") else s
        if not d or not (d.isascii() and d.isdigit()):
            return bad
        n = int(s)
        if h in FITS:
            lo, hi = RANGES[FITS[h]]
            if (lo is not None and n < lo) or (hi is not None and n > hi) or (lo == 0 and s[0] == "-"):
                return bad
        return Adt(RESULT, 0, [Num(FITS.get(h, h), const(n))])
    if h in ("f64", "f32"):
        try:
            v = float(s)
        except ValueError:
            return bad
        if s != s.strip() or "_" in s:
            return bad
        if v != v or v in (float("inf"), float("-inf")):
            return Adt(RESULT, 0, [Num("F64", tm.mk("special", "nan" if v != v else ("inf" if v > 0 else "-inf")), True)])
        return Adt(RESULT, 0, [Num("F64", const(v), True)])
    if h in ("String",):
        return Adt(RESULT, 0, [S1(s)])
    raise Unsupported("parse to " + ty)


def charp(name, f):
    def g(I, a, t, w):
        c = lit(a[0])
        if c is None:
            x = strip(a[0])
            if isinstance(x, Num) and x.t.op == "c":
                c = chr(int(x.t.args[0]))
            else:
                raise Unsupported("character")
        return f(c)

    for k in ("char::", "u8::"):
        M.setdefault(k + name, g)


charp("is_ascii_digit", lambda c: "0" <= c <= "9")
charp("is_digit", lambda c: "0" <= c <= "9")
charp("is_numeric", lambda c: unicodedata.category(c)[0] == "N")
charp("is_alphabetic", lambda c: c.isalpha())
charp("is_alphanumeric", lambda c: c.isalpha() or unicodedata.category(c)[0] == "N")
charp("is_ascii_alphabetic", lambda c: c.isascii() and c.isalpha())
charp("is_ascii_alphanumeric", lambda c: c.isascii() and c.isalnum())
charp("is_lowercase", lambda c: c.islower())
charp("is_uppercase", lambda c: c.isupper())
charp("is_ascii_lowercase", lambda c: c.isascii() and c.islower())
charp("is_ascii_uppercase", lambda c: c.isascii() and c.isupper())
charp("is_whitespace", lambda c: c.isspace())
charp("is_ascii_whitespace", lambda c: c in " \t\n\x0c\r")
charp("is_ascii", lambda c: c.isascii())
charp("is_ascii_punctuation", lambda c: c.isascii() and c.isprintable() and not c.isalnum() and c != " ")
charp("is_control", lambda c: unicodedata.category(c) == "Cc")
charp("len_utf8", lambda c: usize(len(c.encode("utf8"))))
charp("to_ascii_lowercase", lambda c: S1(c.lower() if c.isascii() else c))
charp("to_ascii_uppercase", lambda c: S1(c.upper() if c.isascii() else c))
charp("to_lowercase", lambda c: it_list([S1(x) for x in c.lower()]))
charp("to_uppercase", lambda c: it_list([S1(x) for x in c.upper()]))


@m("char::to_digit")
def _(I, a, t, w):
    c = lit(a[0])
    k = I.concrete(num(a[1]), "radix")
    if c is None:
        raise Unsupported("character")
    try:
        v = int(c, 36) if c.isascii() and c.isalnum() else None
    except ValueError:
        v = None
    return some(Num("U32", const(v))) if v is not None and v < k else none()


@m("String::insert", "String::insert_str", "String::remove", "String::pop", "String::drain", "String::retain", "String::split_off")
def _(I, a, t, w):
    n = t["def"].split("::")[-1]
    r = a[0]
    while isinstance(r.get(), Ref):
        r = r.get()
    s = lit(r.get())
    if s is None:
        raise Unsupported("String::" + n)
    b = s.encode("utf8")
    if n == "pop":
        r.set(S1(s[:-1]))
        return some(S1(s[-1])) if s else none()
    if n == "retain":
        r.set(S1("".join(c for c in s if truth(I.invoke(a[1], [S1(c)], w)))))
        return UNIT
    if n == "drain":
        lo, hi = rng(I, a[1], len(b))
        r.set(S1((b[:lo] + b[hi:]).decode("utf8", "replace")))
        return it_list([S1(c) for c in b[lo:hi].decode("utf8", "replace")])
    k = I.concrete(a[1], "position", 0, 64)
    if k > len(b):
        oob(I, w)
    if n == "split_off":
        r.set(S1(b[:k].decode("utf8", "replace")))
        return S1(b[k:].decode("utf8", "replace"))
    if n == "remove":
        rest = b[k:].decode("utf8", "replace")
        if not rest:
            oob(I, w)
        r.set(S1(b[:k].decode("utf8", "replace") + rest[1:]))
        return S1(rest[0])
    x = lit(a[2])
    if x is None:
        raise Unsupported("String::" + n)
    r.set(S1(b[:k].decode("utf8", "replace") + x + b[k:].decode("utf8", "replace")))
    return UNIT


# other textual forms of numbers are not the plain one
def styled(name):
    def f(I, x, w):
        x = R(strip(x))
        if isinstance(x, Num):
            return (("numfmt", name, x.ty, x.t),)
        raise Unsupported(name)

    return f


for _n, _s in (("new_lower_exp", "LowerExp"), ("new_upper_exp", "UpperExp"), ("new_lower_hex", "LowerHex"), ("new_upper_hex", "UpperHex"), ("new_binary", "Binary"), ("new_octal", "Octal")):
    M["Argument::" + _n] = (lambda s: lambda I, a, t, w: Adt("vp::Arg", 0, [Ref([StrV(styled(s)(I, a[0], w))], 0), False]))(_s)
    M[_s + "::fmt"] = (lambda s: lambda I, a, t, w: emit(I, a[1], styled(s)(I, a[0], w)))(_s)


@m("BigInt::to_str_radix", "BigUint::to_str_radix")
def _(I, a, t, w):
    x = num(a[0])
    k = I.concrete(num(a[1]), "radix", 2, 36)
    if k == 10:
        return StrV(display(I, x, w))
    return StrV((("numfmt", "radix %d" % k, x.ty, x.t),))


# --------------------------------------- characters of a text that is not known
class TextIt(It):
    """the characters of an unknown text: all of them, or a part"""

    def __init__(self, s, indices, length, part=False):
        def nxt():
            raise Unsupported("characters of an unknown string")

        It.__init__(self, nxt)
        self.s, self.indices, self.length, self.part = s, indices, length, part


def chars_of(I, a, t, w):
    s = strip(a[0])
    return TextIt(s, t["def"].endswith("char_indices"), str_len(I, s))


OLD["str::chars"] = OLD["str::char_indices"] = chars_of


def some_char(s):
    return StrV(tuple(("cut", z) for z in s.p))


def wrap_text(key, f):
    old = M[key]

    def g(I, a, t, w):
        it = strip(a[0])
        if isinstance(it, TextIt):
            return f(I, it, a, t, w)
        return old(I, a, t, w)

    M[key] = g


def ti_count(I, it, a, t, w):
    if it.part:
        raise Unsupported("count of a part of a text")
    return Num("Usize", it.length)


def ti_nth(I, it, a, t, w):
    k = a[1] if len(a) > 1 else usize(0)
    if it.part:
        raise Unsupported("a part of a text")
    if not I.test(">", Num("Usize", it.length), k):
        return none()
    it.part = True
    c = some_char(it.s)
    return some(Tup([k, c]) if it.indices else c)


def ti_take(I, it, a, t, w):
    if not it.part and I.test("<=", Num("Usize", it.length), a[1]):
        return it
    return TextIt(it.s, it.indices, it.length, True)


def ti_skip(I, it, a, t, w):
    if I.test("==", a[1], usize(0)):
        return it
    return TextIt(it.s, it.indices, it.length, True)


def ti_collect(I, it, a, t, w):
    ty = type_args(t["inst"])[0]
    if head(ty) != "String" or it.indices:
        raise Unsupported("characters of an unknown string")
    return some_char(it.s) if it.part else it.s


def ti_rev(I, it, a, t, w):
    return TextIt(it.s, it.indices, it.length, True)


for k, f in (("count", ti_count), ("nth", ti_nth), ("next", ti_nth), ("take", ti_take), ("skip", ti_skip), ("collect", ti_collect), ("rev", ti_rev)):
    if "Iterator::" + k in M:
        wrap_text("Iterator::" + k, f)
