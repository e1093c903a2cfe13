"""Meaning of the std / num items the crate uses, keyed by a short path.

Each model has the signature m(I, args, target, where).  A std item without a
model is either interpreted from its own MIR or reported as unsupported, which
makes the trace partition undecided (never an alarm)."""
import math
import struct
from fractions import Fraction

import terms as tm
from terms import const, fn as tfn, pow_, log_, add, mul
from interp import (
    special_neg,
    Adt, BoxV, Clo, EXPR, FLOATS, FnV, HasherV, Heap, Infeasible, It, MapV, Num, Opq, ORDERING, Panic, R, RANGES, Ref, SYM,
    STOP, Seq, StrV, Tup, UNIT, Unsupported, ESym, is_expr, none, ordv, some, strip, OPTION, RESULT, Cut,
)

M = {}


def m(*keys):
    def d(f):
        for k in keys:
            M[k] = f
        return f

    return d


def usize(n):
    return Num("Usize", const(n))


def deref1(x):
    """value behind one reference (or the value itself)"""
    return x.get() if isinstance(x, Ref) else x


def boxed_deref(x):
    while isinstance(x, (Ref, BoxV)):
        x = x.get() if isinstance(x, Ref) else x.f[0]
    return x


# ---------------------------------------------------------------- iterators
def it_list(items):
    st = [0, len(items)]

    def nxt():
        if st[0] >= st[1]:
            return STOP
        st[0] += 1
        return items[st[0] - 1]

    def back():
        if st[0] >= st[1]:
            return STOP
        st[1] -= 1
        return items[st[1]]

    def parts():
        return it_list(items[st[0] : st[1]])

    return It(nxt, back, parts)


def refs(seq):
    items = seq.items
    return it_list([Ref(items, i) for i in range(len(items))])


def to_iter(I, x):
    """IntoIterator::into_iter / Iterator by value or reference"""
    if isinstance(x, It):
        return x
    if isinstance(x, Ref):
        y = x.get()
        while isinstance(y, (Ref, BoxV)):
            y = y.get() if isinstance(y, Ref) else y.f[0]
        if isinstance(y, It):
            return y
        if isinstance(y, Seq):
            return refs(y)
        if isinstance(y, Heap):
            return it_list([Ref(y.items, i) for i in range(len(y.items))])
        if isinstance(y, MapV):
            return map_iter(I, y)
        if isinstance(y, Adt):
            if y.n == OPTION:
                return it_list([Ref(y.f, 0)] if y.v == 1 else [])
            return adt_iter(I, y)
        raise Unsupported("iteration over &%s" % type(y).__name__)
    if isinstance(x, (Seq, Heap)):
        return it_list(list(x.items))
    if isinstance(x, MapV):
        es = map_order(I, x)
        if x.isset:
            return it_list([e[0] for e in es])
        return it_list([Tup([e[0], e[1]]) for e in es])
    if isinstance(x, BoxV):
        return to_iter(I, x.f[0])
    if isinstance(x, Adt):
        if x.n == OPTION:
            return it_list([x.f[0]] if x.v == 1 else [])
        return adt_iter(I, x)
    raise Unsupported("iteration over %s" % type(x).__name__)


def adt_iter(I, y):
    """an iterator that is a struct: a range, or one defined in the crate"""
    n = y.n.split("::")[-1]
    if n in ("Range", "RangeInclusive") and len(y.f) >= 2 and isinstance(y.f[0], Num):
        incl = n == "RangeInclusive"

        def live():
            a, b = y.f[0], y.f[1]
            if incl and len(y.f) > 2 and y.f[2] is True:
                return False
            return I.test("<=" if incl else "<", a, b)

        def count():
            st = I.ctx.mark.setdefault(id(y), [0, y])
            st[0] += 1
            if st[0] > I.unroll + 1 and not (y.f[0].t.op == "c" and y.f[1].t.op == "c" and st[0] < 200):
                raise Cut("loop over a symbolic range")

        def nxt():
            if not live():
                return STOP
            count()
            a = y.f[0]
            y.f[0] = Num(a.ty, tm.add(a.t, tm.ONE), a.tnt)
            return a

        def back():
            if not live():
                return STOP
            count()
            b = y.f[1]
            if incl:
                y.f[1] = Num(b.ty, tm.sub(b.t, tm.ONE), b.tnt)
                return b
            y.f[1] = Num(b.ty, tm.sub(b.t, tm.ONE), b.tnt)
            return y.f[1]

        def parts():
            return adt_iter(I, Adt(y.n, y.v, list(y.f)))

        return It(nxt, back, parts)
    if n == "RangeFrom":

        def nxt2():
            a = y.f[0]
            y.f[0] = Num(a.ty, tm.add(a.t, tm.ONE), a.tnt)
            return a

        return It(nxt2)
    l = I.cr.impl_m.get(("Iterator", y.n, "next")) or [
        f for (tr, ty, mm), fs in I.cr.impl_m.items() if tr == "Iterator" and mm == "next" and ty.split("<")[0] == y.n for f in fs
    ]
    if l:
        cell = [y]

        def nxt3():
            r = I.call_fn(l[0], [Ref(cell, 0)])
            return STOP if r.v == 0 else r.f[0]

        return It(nxt3)
    raise Unsupported("iteration over %s" % y.n)


def drain(it, limit=400):
    out = []
    while True:
        x = it.nxt()
        if x is STOP:
            return out
        out.append(x)
        if len(out) > limit:
            raise Cut("long iteration")


def opt(x):
    return none() if x is STOP else some(x)


@m("IntoIterator::into_iter", "slice::iter", "slice::iter_mut", "Vec::iter", "BinaryHeap::iter", "HashMap::iter", "HashMap::iter_mut",
   "BTreeMap::iter", "BTreeMap::iter_mut", "HashSet::iter", "BTreeSet::iter", "Option::iter", "VecDeque::iter", "Iterator::by_ref", "Iterator::into_iter")
def _(I, a, t, w):
    return to_iter(I, a[0])


@m("Iterator::next", "DoubleEndedIterator::next", "Range::next")
def _(I, a, t, w):
    return opt(to_iter(I, a[0]).nxt())


@m("DoubleEndedIterator::next_back")
def _(I, a, t, w):
    it = to_iter(I, a[0])
    if it.back is None:
        raise Unsupported("next_back")
    return opt(it.back())


def gen_map(it, f):
    return It(
        lambda: (lambda x: STOP if x is STOP else f(x))(it.nxt()),
        None if it.back is None else (lambda: (lambda x: STOP if x is STOP else f(x))(it.back())),
        None if it.parts is None else (lambda: gen_map(it.parts(), f)),
    )


@m("Iterator::map")
def _(I, a, t, w):
    f = a[1]
    return gen_map(to_iter(I, a[0]), lambda x: I.invoke(f, [x], w))


@m("Iterator::cloned", "Iterator::copied")
def _(I, a, t, w):
    return gen_map(to_iter(I, a[0]), lambda x: I.clone(deref1(x)))


def truth(x):
    if isinstance(x, bool):
        return x
    raise Unsupported("boolean of %s" % type(x).__name__)


def gen_filter(I, it, pred):
    def one(src):
        while True:
            x = src()
            if x is STOP:
                return STOP
            if pred(x):
                return x

    return It(lambda: one(it.nxt), None if it.back is None else (lambda: one(it.back)), None if it.parts is None else (lambda: gen_filter(I, it.parts(), pred)))


@m("Iterator::filter")
def _(I, a, t, w):
    f = a[1]
    return gen_filter(I, to_iter(I, a[0]), lambda x: truth(I.invoke(f, [Ref([x], 0)], w)))


def gen_fm(I, it, f):
    def one(src):
        while True:
            x = src()
            if x is STOP:
                return STOP
            r = f(x)
            if r.v == 1:
                return r.f[0]

    return It(lambda: one(it.nxt), None if it.back is None else (lambda: one(it.back)), None if it.parts is None else (lambda: gen_fm(I, it.parts(), f)))


@m("Iterator::filter_map")
def _(I, a, t, w):
    return gen_fm(I, to_iter(I, a[0]), lambda x: I.invoke(a[1], [x], w))


@m("Iterator::map_while")
def _(I, a, t, w):
    it = to_iter(I, a[0])
    done = [False]

    def nxt():
        if done[0]:
            return STOP
        x = it.nxt()
        if x is STOP:
            return STOP
        r = I.invoke(a[1], [x], w)
        if r.v == 0:
            done[0] = True
            return STOP
        return r.f[0]

    return It(nxt)


def gen_flat(I, it, f):
    cur = [None]

    def nxt():
        while True:
            if cur[0] is not None:
                x = cur[0].nxt()
                if x is not STOP:
                    return x
                cur[0] = None
            y = it.nxt()
            if y is STOP:
                return STOP
            cur[0] = to_iter(I, f(y))

    return It(nxt)


@m("Iterator::flat_map")
def _(I, a, t, w):
    return gen_flat(I, to_iter(I, a[0]), lambda x: I.invoke(a[1], [x], w))


@m("Iterator::flatten")
def _(I, a, t, w):
    return gen_flat(I, to_iter(I, a[0]), lambda x: x)


@m("Iterator::enumerate")
def _(I, a, t, w):
    it = to_iter(I, a[0])
    n = [0]

    def nxt():
        x = it.nxt()
        if x is STOP:
            return STOP
        n[0] += 1
        return Tup([usize(n[0] - 1), x])

    if it.parts is not None and it.back is not None:
        # known length: materialise lazily so that rev() works
        def back():
            rest = drain(it)
            base = n[0]
            l = it_list([Tup([usize(base + i), x]) for i, x in enumerate(rest)])
            it2.nxt, it2.back, it2.parts = l.nxt, l.back, l.parts
            return l.back()

        it2 = It(nxt, back, None)
        return it2
    return It(nxt)


@m("Iterator::rev", "DoubleEndedIterator::rev")
def _(I, a, t, w):
    it = to_iter(I, a[0])
    if it.back is None:
        raise Unsupported("rev")
    return It(it.back, it.nxt, None)


@m("Iterator::zip")
def _(I, a, t, w):
    x, y = to_iter(I, a[0]), to_iter(I, a[1])

    def nxt():
        p = x.nxt()
        if p is STOP:
            return STOP
        q = y.nxt()
        if q is STOP:
            return STOP
        return Tup([p, q])

    return It(nxt)


@m("Iterator::chain")
def _(I, a, t, w):
    x, y = to_iter(I, a[0]), to_iter(I, a[1])

    def nxt():
        p = x.nxt()
        return y.nxt() if p is STOP else p

    def back():
        p = y.back()
        return x.back() if p is STOP else p

    return It(nxt, back if x.back and y.back else None)


@m("iter::once", "once::once")
def _(I, a, t, w):
    return it_list([a[0]])


@m("iter::empty", "empty::empty")
def _(I, a, t, w):
    return it_list([])


@m("iter::repeat", "repeat::repeat")
def _(I, a, t, w):
    return It(lambda: I.clone(a[0]))


@m("iter::successors", "successors::successors")
def _(I, a, t, w):
    cur = [a[0]]

    def nxt():
        c = cur[0]
        if c.v == 0:
            return STOP
        x = c.f[0]
        cur[0] = I.invoke(a[1], [Ref([x], 0)], w)
        return x

    return It(nxt)


@m("iter::from_fn", "from_fn::from_fn")
def _(I, a, t, w):
    def nxt():
        r = I.invoke(a[0], [], w)
        return STOP if r.v == 0 else r.f[0]

    return It(nxt)


@m("Iterator::take")
def _(I, a, t, w):
    it = to_iter(I, a[0])
    left = [a[1]]
    n = [0]

    def nxt():
        if not I.test("<", usize(n[0]), a[1]):
            return STOP
        if n[0] > 400:
            raise Cut("take")
        n[0] += 1
        if a[1].t.op != "c" and n[0] > I.unroll + 1:
            raise Cut("take of a symbolic count")
        return it.nxt()

    return It(nxt)


@m("Iterator::skip")
def _(I, a, t, w):
    it = to_iter(I, a[0])
    k = I.concrete(a[1], "skip")
    if it.parts is not None and it.back is not None:
        items = drain(it)
        return it_list(items[k:])
    for _i in range(k):
        it.nxt()
    return it


@m("Iterator::step_by")
def _(I, a, t, w):
    items = drain(to_iter(I, a[0]))
    k = I.concrete(a[1], "step", 1)
    return it_list(items[::k])


@m("Iterator::take_while")
def _(I, a, t, w):
    it = to_iter(I, a[0])
    done = [False]

    def nxt():
        if done[0]:
            return STOP
        x = it.nxt()
        if x is STOP or not truth(I.invoke(a[1], [Ref([x], 0)], w)):
            done[0] = True
            return STOP
        return x

    return It(nxt)


@m("Iterator::skip_while")
def _(I, a, t, w):
    it = to_iter(I, a[0])
    on = [False]

    def nxt():
        while True:
            x = it.nxt()
            if x is STOP or on[0]:
                return x
            if not truth(I.invoke(a[1], [Ref([x], 0)], w)):
                on[0] = True
                return x

    return It(nxt)


@m("Iterator::inspect")
def _(I, a, t, w):
    return gen_map(to_iter(I, a[0]), lambda x: (I.invoke(a[1], [Ref([x], 0)], w), x)[1])


@m("Iterator::peekable", "Iterator::fuse")
def _(I, a, t, w):
    it = to_iter(I, a[0])
    return it_list(drain(it)) if t["def"].endswith("peekable") else it


@m("Peekable::peek")
def _(I, a, t, w):
    it = to_iter(I, a[0])
    c = it.parts()
    x = c.nxt()
    return none() if x is STOP else some(Ref([x], 0))


@m("Iterator::scan")
def _(I, a, t, w):
    it = to_iter(I, a[0])
    st = [a[1]]

    def nxt():
        x = it.nxt()
        if x is STOP:
            return STOP
        r = I.invoke(a[2], [Ref(st, 0), x], w)
        return STOP if r.v == 0 else r.f[0]

    return It(nxt)


# consumers
@m("Iterator::find")
def _(I, a, t, w):
    it = to_iter(I, a[0])
    while True:
        x = it.nxt()
        if x is STOP:
            return none()
        if truth(I.invoke(a[1], [Ref([x], 0)], w)):
            return some(x)


@m("Iterator::find_map")
def _(I, a, t, w):
    it = to_iter(I, a[0])
    while True:
        x = it.nxt()
        if x is STOP:
            return none()
        r = I.invoke(a[1], [x], w)
        if r.v == 1:
            return r


@m("Iterator::position")
def _(I, a, t, w):
    it = to_iter(I, a[0])
    i = 0
    while True:
        x = it.nxt()
        if x is STOP:
            return none()
        if truth(I.invoke(a[1], [x], w)):
            return some(usize(i))
        i += 1


@m("Iterator::any")
def _(I, a, t, w):
    it = to_iter(I, a[0])
    while True:
        x = it.nxt()
        if x is STOP:
            return False
        if truth(I.invoke(a[1], [x], w)):
            return True


@m("Iterator::all")
def _(I, a, t, w):
    it = to_iter(I, a[0])
    while True:
        x = it.nxt()
        if x is STOP:
            return True
        if not truth(I.invoke(a[1], [x], w)):
            return False


@m("Iterator::fold", "DoubleEndedIterator::rfold")
def _(I, a, t, w):
    it = to_iter(I, a[0])
    acc = a[1]
    src = it.back if t["def"].endswith("rfold") else it.nxt
    while True:
        x = src()
        if x is STOP:
            return acc
        acc = I.invoke(a[2], [acc, x], w)


@m("Iterator::try_fold")
def _(I, a, t, w):
    it = to_iter(I, a[0])
    acc = a[1]
    last = None
    while True:
        x = it.nxt()
        if x is STOP:
            if last is None:
                return some(acc) if "Option<" in t.get("inst", "") else Adt(RESULT, 0, [acc])
            return last
        last = I.invoke(a[2], [acc, x], w)
        good = (last.n == OPTION and last.v == 1) or (last.n == RESULT and last.v == 0)
        if not good:
            return last
        acc = last.f[0]


@m("Iterator::reduce")
def _(I, a, t, w):
    it = to_iter(I, a[0])
    acc = it.nxt()
    if acc is STOP:
        return none()
    while True:
        x = it.nxt()
        if x is STOP:
            return some(acc)
        acc = I.invoke(a[1], [acc, x], w)


@m("Iterator::for_each")
def _(I, a, t, w):
    for x in iter(to_iter(I, a[0]).nxt, STOP):
        I.invoke(a[1], [x], w)
    return UNIT


@m("Iterator::count")
def _(I, a, t, w):
    return usize(len(drain(to_iter(I, a[0]))))


@m("ExactSizeIterator::len", "Iterator::len")
def _(I, a, t, w):
    it = to_iter(I, a[0])
    if it.parts is None:
        raise Unsupported("len of an iterator")
    return usize(len(drain(it.parts())))


@m("Iterator::size_hint")
def _(I, a, t, w):
    raise Unsupported("size_hint")


@m("Iterator::last")
def _(I, a, t, w):
    l = drain(to_iter(I, a[0]))
    return some(l[-1]) if l else none()


@m("Iterator::nth")
def _(I, a, t, w):
    it = to_iter(I, a[0])
    k = I.concrete(a[1], "nth")
    x = STOP
    for _i in range(k + 1):
        x = it.nxt()
        if x is STOP:
            break
    return opt(x)


@m("Iterator::partition")
def _(I, a, t, w):
    l, r = [], []
    for x in iter(to_iter(I, a[0]).nxt, STOP):
        (l if truth(I.invoke(a[1], [Ref([x], 0)], w)) else r).append(x)
    return Tup([Seq(l), Seq(r)])


@m("Iterator::unzip")
def _(I, a, t, w):
    l = drain(to_iter(I, a[0]))
    return Tup([Seq([x.f[0] for x in l]), Seq([x.f[1] for x in l])])


def pick(I, l, cmp, want):
    if not l:
        return none()
    best = l[0]
    for x in l[1:]:
        c = cmp(best, x)
        if c is None:
            raise Unsupported("unordered")
        if want == "max" and c <= 0:
            best = x
        if want == "min" and c > 0:
            best = x
    return some(best)


@m("Iterator::max", "Iterator::min")
def _(I, a, t, w):
    return pick(I, drain(to_iter(I, a[0])), I.cmpv, t["def"].split("::")[-1])


@m("Iterator::max_by", "Iterator::min_by")
def _(I, a, t, w):
    return pick(I, drain(to_iter(I, a[0])), lambda x, y: I.invoke(a[1], [Ref([x], 0), Ref([y], 0)], w).v - 1, t["def"].split("::")[-1][:3])


@m("Iterator::max_by_key", "Iterator::min_by_key")
def _(I, a, t, w):
    l = [(I.invoke(a[1], [Ref([x], 0)], w), x) for x in drain(to_iter(I, a[0]))]
    r = pick(I, l, lambda x, y: I.cmpv(x[0], y[0]), t["def"].split("::")[-1][:3])
    if r.v == 1:
        r.f[0] = r.f[0][1]
    return r


@m("Iterator::eq", "Iterator::ne")
def _(I, a, t, w):
    x, y = drain(to_iter(I, a[0])), drain(to_iter(I, a[1]))
    r = len(x) == len(y) and all(I.eqv(p, q) for p, q in zip(x, y))
    return r if t["def"].endswith("eq") else not r


@m("Iterator::cmp", "Iterator::partial_cmp")
def _(I, a, t, w):
    x, y = drain(to_iter(I, a[0])), drain(to_iter(I, a[1]))
    r = I.cmpv(Seq(x), Seq(y))
    if t["def"].endswith("::cmp"):
        return ordv(r)
    return none() if r is None else some(ordv(r))


def type_args(inst):
    """trailing ::<...> of an instance name, split at top level"""
    if not inst.endswith(">"):
        return []
    d = 0
    i = len(inst) - 1
    while i >= 0:
        c = inst[i]
        if c == ">" and inst[i - 1] != "-":
            d += 1
        elif c == "<":
            d -= 1
            if d == 0:
                break
        i -= 1
    body = inst[i + 1 : -1]
    out, d, cur = [], 0, ""
    for j, c in enumerate(body):
        if c in "<([{":
            d += 1
        elif c in ")]}" or (c == ">" and body[j - 1] != "-"):
            d -= 1
        if c == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def self_type(inst):
    """T of `<T as Trait>::method` or of `<impl Trait for T>::method`"""
    from mir import split_path
    import re

    p = split_path(inst)
    for q in reversed(p[:-1]):
        mm = re.match(r"^<impl (.*) for (.*)>$", q)
        if mm:
            return mm.group(2)
        mm = re.match(r"^<(.*) as (.*)>$", q)
        if mm:
            return mm.group(1)
    return ""


def head(ty):
    return ty.split("<")[0].split("::")[-1]


def collect(I, it, ty):
    h = head(ty)
    if h in ("Vec", "VecDeque", "LinkedList", "Box"):
        return Seq(drain(it))
    if h == "BinaryHeap":
        return Heap(drain(it))
    if h in ("HashMap", "BTreeMap", "HashSet", "BTreeSet"):
        mp = MapV("Set" in h, h.startswith("B"))
        for x in iter(it.nxt, STOP):
            if mp.isset:
                map_insert(I, mp, x, UNIT)
            else:
                map_insert(I, mp, x.f[0], x.f[1])
        return mp
    if h in ("Option", "Result"):
        good = 1 if h == "Option" else 0
        bad = []
        inner = type_args(ty)[0]

        def nxt():
            x = it.nxt()
            if x is STOP:
                return STOP
            if x.v != good:
                bad.append(x)
                return STOP
            return x.f[0]

        r = collect(I, It(nxt), inner)
        if bad:
            return none() if h == "Option" else Adt(RESULT, 1, list(bad[0].f))
        return Adt(OPTION if h == "Option" else RESULT, good, [r])
    if h == "String":
        p = ()
        for x in iter(it.nxt, STOP):
            p += boxed_deref(x).p
        return StrV(join_p(p))
    if ty == "()":
        drain(it)
        return UNIT
    l = [f for (tr, t2, mm), fs in I.cr.impl_m.items() if tr == "FromIterator" and mm == "from_iter" and t2.split("<")[0] == ty.split("<")[0] for f in fs]
    if l:
        return I.call_local(l[0], [it], None)
    raise Unsupported("collect into " + ty)


@m("Iterator::collect")
def _(I, a, t, w):
    return collect(I, to_iter(I, a[0]), type_args(t["inst"])[0])


@m("FromIterator::from_iter")
def _(I, a, t, w):
    return collect(I, to_iter(I, a[0]), self_type(t["inst"]))


def sumprod(I, it, ty, w, isum):
    h = head(ty)
    if h in ("Option", "Result"):
        good = 1 if h == "Option" else 0
        bad = []

        def nxt():
            x = it.nxt()
            if x is STOP:
                return STOP
            if x.v != good:
                bad.append(x)
                return STOP
            return x.f[0]

        r = sumprod(I, It(nxt), type_args(ty)[0], w, isum)
        if bad:
            return none() if h == "Option" else Adt(RESULT, 1, list(bad[0].f))
        return Adt(OPTION if h == "Option" else RESULT, good, [r])
    nty = {"f64": "F64", "isize": "Isize", "usize": "Usize", "i64": "I64", "i32": "I32", "u64": "U64", "u32": "U32", "BigInt": "BigInt", "f32": "F32", "i128": "I128", "BigUint": "BigUint"}.get(h)
    if nty is None:
        tr = "Sum" if isum else "Product"
        l = [f for (t3, t2, mm), fs in I.cr.impl_m.items() if t3 == tr and t2.split("<")[0] == ty.split("<")[0] for f in fs]
        if l:
            return I.call_local(l[0], [it], w)
        raise Unsupported("sum into " + ty)
    acc = Num(nty, tm.ZERO if isum else tm.ONE, nty in FLOATS)
    for x in iter(it.nxt, STOP):
        acc = arith(I, "Add" if isum else "Mul", acc, strip(x), w)
    return acc


@m("Iterator::sum", "Iterator::product")
def _(I, a, t, w):
    return sumprod(I, to_iter(I, a[0]), type_args(t["inst"])[0], w, t["def"].endswith("sum"))


@m("Sum::sum", "Product::product")
def _(I, a, t, w):
    return sumprod(I, to_iter(I, a[0]), self_type(t["inst"]), w, t["def"].endswith("sum"))


# --------------------------------------------------------------------- Vec
def S(x):
    y = boxed_deref(x)
    if isinstance(y, (Seq, Heap)):
        return y
    raise Unsupported("sequence expected, %s" % type(y).__name__)


@m("Vec::new", "VecDeque::new", "Vec::with_capacity", "VecDeque::with_capacity")
def _(I, a, t, w):
    return Seq([])


@m("slice::reserve", "Vec::reserve", "Vec::shrink_to_fit", "BinaryHeap::reserve", "HashMap::reserve", "BinaryHeap::shrink_to_fit")
def _(I, a, t, w):
    return UNIT


@m("BinaryHeap::new", "BinaryHeap::with_capacity")
def _(I, a, t, w):
    return Heap([])


@m("Vec::push", "VecDeque::push_back")
def _(I, a, t, w):
    S(a[0]).items.append(a[1])
    return UNIT


@m("VecDeque::push_front")
def _(I, a, t, w):
    S(a[0]).items.insert(0, a[1])
    return UNIT


@m("Vec::pop", "VecDeque::pop_back")
def _(I, a, t, w):
    s = S(a[0])
    return some(s.items.pop()) if s.items else none()


@m("VecDeque::pop_front")
def _(I, a, t, w):
    s = S(a[0])
    return some(s.items.pop(0)) if s.items else none()


@m("Vec::append", "VecDeque::append", "BinaryHeap::append")
def _(I, a, t, w):
    s, o = S(a[0]), S(a[1])
    s.items.extend(o.items)
    del o.items[:]
    if isinstance(s, Heap):
        s.srt = False
    return UNIT


@m("Vec::len", "slice::len", "BinaryHeap::len", "VecDeque::len")
def _(I, a, t, w):
    return usize(len(S(a[0]).items))


@m("Vec::is_empty", "slice::is_empty", "BinaryHeap::is_empty", "VecDeque::is_empty")
def _(I, a, t, w):
    return not S(a[0]).items


@m("Vec::clear", "BinaryHeap::clear", "VecDeque::clear")
def _(I, a, t, w):
    del S(a[0]).items[:]
    return UNIT


@m("Vec::extend_from_slice")
def _(I, a, t, w):
    S(a[0]).items.extend([I.clone(x) for x in S(a[1]).items])
    return UNIT


@m("Extend::extend", "Vec::extend", "BinaryHeap::extend")
def _(I, a, t, w):
    tgt = boxed_deref(a[0])
    l = drain(to_iter(I, a[1]))
    if isinstance(tgt, MapV):
        for x in l:
            if tgt.isset:
                map_insert(I, tgt, x, UNIT)
            else:
                map_insert(I, tgt, x.f[0], x.f[1])
        return UNIT
    if isinstance(tgt, StrV):
        a[0].set(StrV(join_p(tgt.p + sum((boxed_deref(x).p for x in l), ()))))
        return UNIT
    s = S(tgt)
    # Extend<&T> clones
    s.items.extend([I.clone(x.get()) if isinstance(x, Ref) and "&" in t.get("inst", "").split("Extend<")[-1][:3] else x for x in l])
    if isinstance(s, Heap):
        s.srt = False
    return UNIT


def idx(I, n, ln, w, incl=False):
    k = I.concrete(n, "index", 0, ln + 1)
    return k


def oob(I, w, what="index out of bounds"):
    raise Panic(what, w, [list(z) for z in I.stack])


@m("Vec::insert")
def _(I, a, t, w):
    s = S(a[0])
    k = idx(I, a[1], len(s.items), w)
    if k > len(s.items):
        oob(I, w)
    s.items.insert(k, a[2])
    return UNIT


@m("Vec::remove", "Vec::swap_remove")
def _(I, a, t, w):
    s = S(a[0])
    k = idx(I, a[1], len(s.items), w)
    if k >= len(s.items):
        oob(I, w)
    x = s.items[k]
    if t["def"].endswith("swap_remove"):
        s.items[k] = s.items[-1]
        s.items.pop()
    else:
        del s.items[k]
    return x


@m("Vec::truncate")
def _(I, a, t, w):
    s = S(a[0])
    k = I.concrete(a[1], "truncate", 0, len(s.items) + 1)
    del s.items[k:]
    return UNIT


@m("Vec::split_off")
def _(I, a, t, w):
    s = S(a[0])
    k = I.concrete(a[1], "split", 0, len(s.items) + 1)
    r = s.items[k:]
    del s.items[k:]
    return Seq(r)


@m("Vec::retain", "BinaryHeap::retain")
def _(I, a, t, w):
    s = S(a[0])
    keep = [x for x in list(s.items) if truth(I.invoke(a[1], [Ref([x], 0)], w))]
    s.items[:] = keep
    return UNIT


@m("Vec::drain", "BinaryHeap::drain", "VecDeque::drain")
def _(I, a, t, w):
    s = S(a[0])
    lo, hi = 0, len(s.items)
    if len(a) > 1:
        lo, hi = rng(I, a[1], len(s.items))
    r = s.items[lo:hi]
    del s.items[lo:hi]
    return it_list(r)


def rng(I, r, n):
    h = r.n.split("::")[-1]
    if h == "RangeFull":
        return 0, n
    if h == "Range":
        return I.concrete(r.f[0], "range", 0, n + 1), I.concrete(r.f[1], "range", 0, n + 1)
    if h == "RangeFrom":
        return I.concrete(r.f[0], "range", 0, n + 1), n
    if h == "RangeTo":
        return 0, I.concrete(r.f[0], "range", 0, n + 1)
    if h == "RangeInclusive":
        return I.concrete(r.f[0], "range", 0, n + 1), I.concrete(r.f[1], "range", 0, n + 1) + 1
    raise Unsupported("range " + h)


@m("Index::index", "IndexMut::index_mut")
def _(I, a, t, w):
    y = boxed_deref(a[0])
    if isinstance(y, MapV):
        e = map_find(I, y, a[1])
        if e is None:
            oob(I, w, "key not found")
        return Ref(e, 1)
    if isinstance(y, Seq):
        if isinstance(a[1], Num):
            k = idx(I, a[1], len(y.items), w)
            if k >= len(y.items):
                oob(I, w)
            return Ref(y.items, k)
        lo, hi = rng(I, a[1], len(y.items))
        if lo > hi or hi > len(y.items):
            oob(I, w)
        return Ref([Seq(y.items[lo:hi])], 0)
    if isinstance(y, StrV):
        return Ref([cut_str(I, y, a[1])], 0)
    raise Unsupported("index of %s" % type(y).__name__)


@m("slice::get", "slice::get_mut", "Vec::get", "VecDeque::get")
def _(I, a, t, w):
    s = S(a[0])
    if not isinstance(a[1], Num):
        lo, hi = rng(I, a[1], len(s.items))
        if lo > hi or hi > len(s.items):
            return none()
        return some(Ref([Seq(s.items[lo:hi])], 0))
    k = idx(I, a[1], len(s.items), w)
    return some(Ref(s.items, k)) if k < len(s.items) else none()


@m("slice::first", "slice::first_mut", "VecDeque::front")
def _(I, a, t, w):
    s = S(a[0])
    return some(Ref(s.items, 0)) if s.items else none()


@m("slice::last", "slice::last_mut", "VecDeque::back")
def _(I, a, t, w):
    s = S(a[0])
    return some(Ref(s.items, len(s.items) - 1)) if s.items else none()


@m("slice::split_first")
def _(I, a, t, w):
    s = S(a[0])
    return some(Tup([Ref(s.items, 0), Ref([Seq(s.items[1:])], 0)])) if s.items else none()


@m("slice::split_last")
def _(I, a, t, w):
    s = S(a[0])
    return some(Tup([Ref(s.items, len(s.items) - 1), Ref([Seq(s.items[:-1])], 0)])) if s.items else none()


@m("slice::to_vec", "ConvertVec::to_vec", "ToOwned::to_owned", "slice::into_vec", "hack::into_vec")
def _(I, a, t, w):
    y = boxed_deref(a[0])
    return I.clone(y)


@m("slice::contains", "VecDeque::contains")
def _(I, a, t, w):
    return any(I.eqv(x, a[1]) for x in S(a[0]).items)


@m("slice::swap")
def _(I, a, t, w):
    s = S(a[0])
    i, j = idx(I, a[1], len(s.items), w), idx(I, a[2], len(s.items), w)
    if max(i, j) >= len(s.items):
        oob(I, w)
    s.items[i], s.items[j] = s.items[j], s.items[i]
    return UNIT


@m("slice::reverse")
def _(I, a, t, w):
    S(a[0]).items.reverse()
    return UNIT


@m("slice::concat", "slice::join", "Join::join", "Concat::concat")
def _(I, a, t, w):
    s = S(a[0])
    vals = [boxed_deref(x) for x in s.items]
    if all(isinstance(v, StrV) for v in vals):
        p = ()
        for i, v in enumerate(vals):
            if i and len(a) > 1:
                p += boxed_deref(a[1]).p
            p += v.p
        return StrV(join_p(p))
    out = []
    for v in vals:
        out.extend(I.clone(x) for x in S(v).items)
    return Seq(out)


def insertion_sort(I, items, cmp):
    out = []
    for x in items:
        p = len(out)
        while p > 0:
            c = cmp(out[p - 1], x)
            if c is None:
                raise Unsupported("unordered sort")
            if c <= 0:
                break
            p -= 1
        out.insert(p, x)
    return out


@m("slice::sort", "slice::sort_unstable")
def _(I, a, t, w):
    s = S(a[0])
    if s.items and all(is_expr(R(x)) for x in s.items) and I.exprmode == "value":
        s.items[:] = I.sort_values(s.items)
    else:
        s.items[:] = insertion_sort(I, s.items, I.cmpv)
    return UNIT


@m("slice::sort_by", "slice::sort_unstable_by")
def _(I, a, t, w):
    s = S(a[0])
    s.items[:] = insertion_sort(I, list(s.items), lambda x, y: I.invoke(a[1], [Ref([x], 0), Ref([y], 0)], w).v - 1)
    return UNIT


@m("slice::sort_by_key", "slice::sort_unstable_by_key", "slice::sort_by_cached_key")
def _(I, a, t, w):
    s = S(a[0])
    l = [(I.invoke(a[1], [Ref([x], 0)], w), x) for x in s.items]
    s.items[:] = [x for _k, x in insertion_sort(I, l, lambda p, q: I.cmpv(p[0], q[0]))]
    return UNIT


@m("Vec::dedup")
def _(I, a, t, w):
    s = S(a[0])
    out = []
    for x in s.items:
        if not out or not I.eqv(out[-1], x):
            out.append(x)
    s.items[:] = out
    return UNIT


@m("slice::chunks")
def _(I, a, t, w):
    s = S(a[0])
    k = I.concrete(a[1], "chunks", 1)
    return it_list([Ref([Seq(s.items[i : i + k])], 0) for i in range(0, len(s.items), k)])


@m("slice::windows")
def _(I, a, t, w):
    s = S(a[0])
    k = I.concrete(a[1], "windows", 1)
    return it_list([Ref([Seq(s.items[i : i + k])], 0) for i in range(0, len(s.items) - k + 1)])


@m("Vec::as_slice", "Vec::as_mut_slice", "AsRef::as_ref", "AsMut::as_mut", "Borrow::borrow", "BorrowMut::borrow_mut", "Vec::into_boxed_slice",
   "BinaryHeap::as_slice", "String::as_str", "String::into_boxed_str", "Box::as_ref", "Option::as_slice", "Box::leak", "Box::into_inner")
def _(I, a, t, w):
    x = a[0]
    if isinstance(x, Ref):
        y = x.get()
        if isinstance(y, BoxV):
            return Ref(y.f, 0)
    return x


@m("SlicePartialEq::equal_same_length", "SlicePartialEq::equal")
def _(I, a, t, w):
    return I.eqv(a[0], a[1])


# -------------------------------------------------------------- BinaryHeap
@m("BinaryHeap::into_sorted_vec")
def _(I, a, t, w):
    h = S(a[0])
    if I.exprmode == "value" or len(h.items) < 2:
        I.sort_heap(h)
        return Seq(list(h.items))
    return Seq(insertion_sort(I, list(h.items), I.cmpv))


@m("BinaryHeap::into_vec")
def _(I, a, t, w):
    return Seq(list(S(a[0]).items))


@m("BinaryHeap::push")
def _(I, a, t, w):
    h = S(a[0])
    h.items.append(a[1])
    h.srt = False
    return UNIT


@m("BinaryHeap::pop", "BinaryHeap::peek")
def _(I, a, t, w):
    h = S(a[0])
    if not h.items:
        return none()
    if I.exprmode == "value":
        I.sort_heap(h)
        if t["def"].endswith("peek"):
            return some(Ref(h.items, len(h.items) - 1))
        return some(h.items.pop())
    h.items = insertion_sort(I, list(h.items), I.cmpv)
    if t["def"].endswith("peek"):
        return some(Ref(h.items, len(h.items) - 1))
    return some(h.items.pop())


# ---------------------------------------------------------------- Box / ptr
@m("Box::new", "Rc::new", "Arc::new")
def _(I, a, t, w):
    return BoxV(a[0])


@m("mem::size_of_val", "mem::align_of_val")
def _(I, a, t, w):
    return Num("Usize", const(8))


@m("Box::new_uninit")
def _(I, a, t, w):
    return BoxV(None)


@m("Box::assume_init", "Box::write", "Box::from_raw", "Box::into_raw", "MaybeUninit::assume_init", "Box::pin")
def _(I, a, t, w):
    return a[0]


@m("boxed::box_assume_init_into_vec_unsafe")
def _(I, a, t, w):
    x = a[0]
    if isinstance(x, BoxV) and isinstance(x.f[0], Seq):
        return x.f[0]
    raise Unsupported("vec! of an uninitialised box")


@m("Deref::deref", "DerefMut::deref_mut")
def _(I, a, t, w):
    x = a[0]
    if isinstance(x, Ref):
        y = x.get()
        if isinstance(y, BoxV):
            return Ref(y.f, 0)
        if isinstance(y, Ref):
            return y
        if isinstance(y, Adt):
            l = I.cr.impl_m.get(("Deref", y.n, "deref"))
            if l:
                return I.call_local(l[0], [x], w)
    return x


@m("hint::must_use", "convert::identity", "hint::black_box")
def _(I, a, t, w):
    return a[0]


@m("mem::swap")
def _(I, a, t, w):
    x, y = a[0].get(), a[1].get()
    a[0].set(y)
    a[1].set(x)
    return UNIT


@m("mem::replace", "Option::replace")
def _(I, a, t, w):
    x = a[0].get()
    a[0].set(some(a[1]) if t["def"].startswith(("std::option", "core::option")) else a[1])
    return x


@m("mem::take")
def _(I, a, t, w):
    x = a[0].get()
    a[0].set(default_of(I, type_args(t["inst"])[0]))
    return x


@m("mem::drop", "mem::forget")
def _(I, a, t, w):
    return UNIT


def default_of(I, ty):
    h = head(ty)
    nty = {"f64": "F64", "isize": "Isize", "usize": "Usize", "i64": "I64", "i32": "I32", "u64": "U64", "u32": "U32", "BigInt": "BigInt", "u8": "U8"}.get(h)
    if nty:
        return Num(nty, tm.ZERO)
    if h in ("Vec", "VecDeque"):
        return Seq([])
    if h == "BinaryHeap":
        return Heap([])
    if h == "Option":
        return none()
    if h == "String":
        return StrV(())
    if h == "bool":
        return False
    if h in ("HashMap", "BTreeMap", "HashSet", "BTreeSet"):
        return MapV("Set" in h, h.startswith("B"))
    raise Unsupported("default of " + ty)


@m("Default::default")
def _(I, a, t, w):
    return default_of(I, self_type(t["inst"]))


@m("mem::discriminant", "intrinsics::discriminant_value", "marker::discriminant")
def _(I, a, t, w):
    x = R(boxed_deref(a[0]))
    if isinstance(x, ESym) or isinstance(x, Adt):
        return I.disc_of(x)
    raise Unsupported("discriminant")


# ---------------------------------------------------------------- closures
@m("Fn::call", "FnMut::call_mut", "FnOnce::call_once")
def _(I, a, t, w):
    args = a[1]
    return I.invoke(a[0], list(args.f) if isinstance(args, Tup) else [args], w)


# -------------------------------------------------------------------- maps
def map_find(I, mp, k):
    for e in mp.ents:
        if I.eqv(e[0], k):
            return e
    return None


def map_insert(I, mp, k, v):
    e = map_find(I, mp, k)
    if e is not None:
        old = e[1]
        e[1] = v
        return some(old)
    mp.ents.append([k, v])
    return none()


def map_order(I, mp):
    if mp.ordered:
        ks = insertion_sort(I, list(mp.ents), lambda p, q: I.cmpv(p[0], q[0]))
        return ks
    es = list(mp.ents)
    I.ctx.mark["hash_order"] = True
    if I.order_flip == 2:
        es = es[1:] + es[:1]
    elif I.order_flip:
        es.reverse()
    return es


def map_iter(I, mp):
    es = map_order(I, mp)
    if mp.isset:
        return it_list([Ref(e, 0) for e in es])
    return it_list([Tup([Ref(e, 0), Ref(e, 1)]) for e in es])


def MP(x):
    y = boxed_deref(x)
    if isinstance(y, MapV):
        return y
    raise Unsupported("map expected")


for h in ("HashMap", "BTreeMap", "HashSet", "BTreeSet"):

    def mk(h):
        iss, o = "Set" in h, h.startswith("B")

        @m(h + "::new", h + "::with_capacity")
        def _(I, a, t, w):
            return MapV(iss, o)

        @m(h + "::contains_key", h + "::contains")
        def _(I, a, t, w):
            return map_find(I, MP(a[0]), a[1]) is not None

        @m(h + "::get", h + "::get_mut")
        def _(I, a, t, w):
            e = map_find(I, MP(a[0]), a[1])
            return none() if e is None else some(Ref(e, 0 if iss else 1))

        @m(h + "::remove", h + "::take")
        def _(I, a, t, w):
            mp = MP(a[0])
            e = map_find(I, mp, a[1])
            if e is None:
                return False if iss and t["def"].endswith("remove") else none()
            mp.ents.remove(e)
            if iss:
                return True if t["def"].endswith("remove") else some(e[0])
            return some(e[1])

        @m(h + "::remove_entry")
        def _(I, a, t, w):
            mp = MP(a[0])
            e = map_find(I, mp, a[1])
            if e is None:
                return none()
            mp.ents.remove(e)
            return some(Tup(list(e)))

        @m(h + "::insert")
        def _(I, a, t, w):
            r = map_insert(I, MP(a[0]), a[1], UNIT if iss else a[2])
            return r.v == 0 if iss else r

        @m(h + "::len")
        def _(I, a, t, w):
            return usize(len(MP(a[0]).ents))

        @m(h + "::is_empty")
        def _(I, a, t, w):
            return not MP(a[0]).ents

        @m(h + "::clear")
        def _(I, a, t, w):
            del MP(a[0]).ents[:]
            return UNIT

        @m(h + "::keys", h + "::into_keys")
        def _(I, a, t, w):
            return it_list([e[0] if t["def"].endswith("into_keys") else Ref(e, 0) for e in map_order(I, MP(a[0]))])

        @m(h + "::values", h + "::values_mut", h + "::into_values")
        def _(I, a, t, w):
            return it_list([e[1] if t["def"].endswith("into_values") else Ref(e, 1) for e in map_order(I, MP(a[0]))])

        @m(h + "::drain")
        def _(I, a, t, w):
            mp = MP(a[0])
            es = map_order(I, mp)
            del mp.ents[:]
            return it_list([e[0] if iss else Tup(list(e)) for e in es])

        @m(h + "::retain")
        def _(I, a, t, w):
            mp = MP(a[0])
            mp.ents = [e for e in mp.ents if truth(I.invoke(a[1], [Ref(e, 0)] + ([] if iss else [Ref(e, 1)]), w))]
            return UNIT

        @m(h + "::entry")
        def _(I, a, t, w):
            mp = MP(a[0])
            e = map_find(I, mp, a[1])
            return Adt("vp::Entry", 0 if e is not None else 1, [mp, a[1], e])

    mk(h)


def entry_ref(I, en, make):
    mp, k, e = en.f
    if e is None:
        e = [k, make()]
        mp.ents.append(e)
    return Ref(e, 1)


@m("Entry::or_insert")
def _(I, a, t, w):
    return entry_ref(I, a[0], lambda: a[1])


@m("Entry::or_insert_with")
def _(I, a, t, w):
    return entry_ref(I, a[0], lambda: I.invoke(a[1], [], w))


@m("Entry::or_insert_with_key")
def _(I, a, t, w):
    return entry_ref(I, a[0], lambda: I.invoke(a[1], [Ref([a[0].f[1]], 0)], w))


@m("Entry::or_default")
def _(I, a, t, w):
    raise Unsupported("or_default")


@m("Entry::and_modify")
def _(I, a, t, w):
    e = a[0].f[2]
    if e is not None:
        I.invoke(a[1], [Ref(e, 1)], w)
    return a[0]


@m("Entry::key")
def _(I, a, t, w):
    en = boxed_deref(a[0])
    return Ref(en.f, 1)


# ------------------------------------------------------- clone / eq / ord
@m("Clone::clone", "Option::cloned", "Option::copied")
def _(I, a, t, w):
    x = deref1(a[0])
    if isinstance(x, Adt) and x.n == OPTION and t["def"].endswith(("cloned", "copied")):
        return none() if x.v == 0 else some(I.clone(deref1(x.f[0])))
    return I.clone(x)


@m("PartialEq::eq", "equal::equal")
def _(I, a, t, w):
    return I.eqv(a[0], a[1])


@m("PartialEq::ne")
def _(I, a, t, w):
    return not I.eqv(a[0], a[1])


@m("Ord::cmp", "SliceOrd::compare")
def _(I, a, t, w):
    r = I.cmpv(a[0], a[1])
    if r is None:
        raise Unsupported("cmp of unordered values")
    if t["def"].endswith("compare"):
        return ordv(r)
    return ordv(r)


@m("PartialOrd::partial_cmp")
def _(I, a, t, w):
    r = I.cmpv(a[0], a[1])
    return none() if r is None else some(ordv(r))


def rel(op):
    def f(I, a, t, w):
        x, y = R(strip(a[0])), R(strip(a[1]))
        if isinstance(x, Num):
            return I.test(op, x, y)
        r = I.cmpv(x, y)
        if r is None:
            return False
        return {"<": r < 0, "<=": r <= 0, ">": r > 0, ">=": r >= 0}[op]

    return f


M["PartialOrd::lt"] = rel("<")
M["PartialOrd::le"] = rel("<=")
M["PartialOrd::gt"] = rel(">")
M["PartialOrd::ge"] = rel(">=")


@m("Ord::max", "cmp::max", "Ord::min", "cmp::min", "f64::max", "f64::min")
def _(I, a, t, w):
    c = I.cmpv(a[0], a[1])
    if c is None:
        raise Unsupported("max of unordered values")
    if t["def"].endswith("max"):
        return a[1] if c <= 0 else a[0]
    return a[0] if c <= 0 else a[1]


# -------------------------------------------------------------------- hash
def hash_value(I, x, h):
    x = R(strip(x))
    if isinstance(x, tuple):
        x = I.disc_of(x[1])
    if isinstance(x, Num):
        h.tr.append(("n", x.ty, x.t))
        return
    if isinstance(x, StrV):
        o = I.str_ord(x) if I.exprmode == "order" else None
        h.tr.append(("s", x.p) if o is None else ("n", "Label", o.t))
        return
    if isinstance(x, bool):
        h.tr.append(("b", x))
        return
    f = I.local_impl("Hash", x, "hash")
    if f is not None:
        I.call_fn(f, [Ref([x], 0), Ref([h], 0)])
        return
    if isinstance(x, (Seq,)):
        h.tr.append(("len", len(x.items)))
        for y in x.items:
            hash_value(I, y, h)
        return
    if isinstance(x, Tup):
        for y in x.f:
            hash_value(I, y, h)
        return
    if isinstance(x, Adt):
        h.tr.append(("d", x.v))
        for y in x.f:
            hash_value(I, y, h)
        return
    raise Unsupported("hash of %s" % type(x).__name__)


def hasher(x):
    y = boxed_deref(x)
    if isinstance(y, HasherV):
        return y
    raise Unsupported("hasher")


@m("Hash::hash")
def _(I, a, t, w):
    hash_value(I, a[0], hasher(a[1]))
    return UNIT


@m("Hasher::write", "Hasher::write_u8", "Hasher::write_u16", "Hasher::write_u32", "Hasher::write_u64", "Hasher::write_usize", "Hasher::write_i8",
   "Hasher::write_i16", "Hasher::write_i32", "Hasher::write_i64", "Hasher::write_isize", "Hasher::write_str", "Hasher::write_length_prefix")
def _(I, a, t, w):
    hash_value(I, a[1], hasher(a[0]))
    return UNIT


# ------------------------------------------------------------- arithmetic
def arith(I, op, x, y, w):
    if not isinstance(x, Num) or not isinstance(y, Num):
        raise Unsupported("arithmetic on %s" % type(x).__name__)
    if x.ty == "BigInt" or y.ty == "BigInt":
        x = Num("BigInt", x.t, x.tnt)
    r = I.num_bin(op, x, y, w)
    if r.ty in RANGES and op in ("Add", "Sub", "Mul", "Div", "Rem"):
        if not I.in_range(r, r.ty):
            raise Panic("attempt to %s with overflow" % op.lower(), w, [list(z) for z in I.stack])
    return r


def mkop(op):
    def f(I, a, t, w):
        x, y = R(strip(a[0])), R(strip(a[1]))
        if isinstance(x, StrV) and op == "Add":
            return StrV(join_p(x.p + y.p))
        return arith(I, op, x, y, w)

    def g(I, a, t, w):
        r = a[0]
        while isinstance(r.get(), Ref):
            r = r.get()
        x, y = R(r.get()), R(strip(a[1]))
        if isinstance(x, StrV) and op == "Add":
            r.set(StrV(join_p(x.p + y.p)))
        else:
            r.set(arith(I, op, x, y, w))
        return UNIT

    return f, g


for _op in ("Add", "Sub", "Mul", "Div", "Rem"):
    f, g = mkop(_op)
    M["%s::%s" % (_op, _op.lower())] = f
    M["%sAssign::%s_assign" % (_op, _op.lower())] = g


@m("Neg::neg")
def _(I, a, t, w):
    x = strip(a[0])
    if not isinstance(x, Num):
        raise Unsupported("neg")
    if x.t.op == "special":
        return Num(x.ty, tm.mk("special", special_neg(x.t.args[0])), True)
    r = Num(x.ty, tm.neg(x.t), x.tnt)
    if r.ty in RANGES and not I.in_range(r, r.ty):
        raise Panic("attempt to negate with overflow", w, [list(z) for z in I.stack])
    return r


@m("Not::not")
def _(I, a, t, w):
    x = strip(a[0])
    if isinstance(x, bool):
        return not x
    raise Unsupported("not")


def num(x):
    x = strip(x)
    if isinstance(x, Num):
        return x
    raise Unsupported("number expected, %s" % type(x).__name__)


def sign_enum(I, s):
    vs = [k for k in I.cr.adts if k.endswith("bigint::Sign")]
    n = vs[0] if vs else "num::bigint::Sign"
    return Adt(n, s + 1, [])


def sgn(I, x):
    return I.cmp3(x, Num(x.ty, tm.ZERO))


@m("BigInt::sign")
def _(I, a, t, w):
    return sign_enum(I, sgn(I, num(a[0])))


@m("Signed::is_negative", "BigInt::is_negative", "isize::is_negative", "i64::is_negative", "f64::is_sign_negative", "Float::is_sign_negative", "i32::is_negative")
def _(I, a, t, w):
    x = num(a[0])
    if x.t.op == "special":
        v = x.t.args[0]
        return v.startswith("-")
    return I.test("<", x, Num(x.ty, tm.ZERO))


@m("Signed::is_positive", "BigInt::is_positive", "isize::is_positive", "i64::is_positive")
def _(I, a, t, w):
    x = num(a[0])
    return I.test(">", x, Num(x.ty, tm.ZERO))


@m("f64::is_sign_positive")
def _(I, a, t, w):
    x = num(a[0])
    return I.test(">=", x, Num(x.ty, tm.ZERO))


@m("Signed::signum", "isize::signum", "i64::signum")
def _(I, a, t, w):
    x = num(a[0])
    return Num(x.ty, const(sgn(I, x)), x.tnt)


@m("f64::signum")
def _(I, a, t, w):
    x = num(a[0])
    return Num(x.ty, const(1 if I.test(">=", x, Num(x.ty, tm.ZERO)) else -1), True)


@m("Zero::is_zero", "BigInt::is_zero")
def _(I, a, t, w):
    x = num(a[0])
    return I.test("==", x, Num(x.ty, tm.ZERO))


@m("One::is_one", "BigInt::is_one")
def _(I, a, t, w):
    x = num(a[0])
    return I.test("==", x, Num(x.ty, tm.ONE))


NTY = {"f64": "F64", "isize": "Isize", "usize": "Usize", "i64": "I64", "i32": "I32", "u64": "U64", "u32": "U32", "BigInt": "BigInt", "BigUint": "BigUint",
       "f32": "F32", "i128": "I128", "u128": "U128", "i16": "I16", "i8": "I8", "u16": "U16", "u8": "U8"}


def const_ctor(v):
    def f(I, a, t, w):
        ty = NTY.get(head(self_type(t["inst"]) or "BigInt"), None)
        if ty is None:
            if "BigInt" in t["inst"]:
                ty = "BigInt"
            else:
                raise Unsupported("zero/one of " + t["inst"])
        return Num(ty, const(v))

    return f


M["Zero::zero"] = M["BigInt::zero"] = const_ctor(0)
M["One::one"] = M["BigInt::one"] = const_ctor(1)
M["num::zero"] = M["identities::zero"] = lambda I, a, t, w: Num(NTY[head(type_args(t["inst"])[0])], tm.ZERO)
M["num::one"] = M["identities::one"] = lambda I, a, t, w: Num(NTY[head(type_args(t["inst"])[0])], tm.ONE)


@m("Integer::is_even", "Integer::is_odd", "Integer::is_multiple_of", "Integer::divides")
def _(I, a, t, w):
    x = num(a[0])
    d = Num(x.ty, const(2)) if len(a) == 1 else num(a[1])
    r = I.num_bin("Rem", x, d, w)
    z = I.test("==", r, Num(x.ty, tm.ZERO))
    return not z if t["def"].endswith("is_odd") else z


@m("Integer::gcd", "integer::gcd")
def _(I, a, t, w):
    x, y = num(a[0]), num(a[1])
    return Num(x.ty, tfn("gcd", x.t, y.t), x.tnt or y.tnt)


@m("Integer::lcm", "integer::lcm")
def _(I, a, t, w):
    x, y = num(a[0]), num(a[1])
    return Num(x.ty, tfn("lcm", x.t, y.t), x.tnt or y.tnt)


@m("Integer::div_floor", "integer::div_floor")
def _(I, a, t, w):
    x, y = num(a[0]), num(a[1])
    if I.test("==", y, Num(y.ty, tm.ZERO)):
        raise Panic("attempt to divide by zero", w, [list(z) for z in I.stack])
    return Num(x.ty, tfn("fdiv", x.t, y.t), x.tnt or y.tnt)


@m("Integer::mod_floor", "integer::mod_floor")
def _(I, a, t, w):
    x, y = num(a[0]), num(a[1])
    if I.test("==", y, Num(y.ty, tm.ZERO)):
        raise Panic("attempt to calculate the remainder with a divisor of zero", w, [list(z) for z in I.stack])
    return Num(x.ty, tfn("fmod", x.t, y.t), x.tnt or y.tnt)


@m("Integer::div_rem", "integer::div_rem")
def _(I, a, t, w):
    x, y = num(a[0]), num(a[1])
    return Tup([I.num_bin("Div", x, y, w), I.num_bin("Rem", x, y, w)])


def absv(I, x, w):
    if x.t.op == "special":
        return Num(x.ty, tm.mk("special", x.t.args[0].lstrip("-")), True)
    s = sgn(I, x)
    r = x if s >= 0 else Num(x.ty, tm.neg(x.t), x.tnt)
    return r


@m("isize::abs", "i64::abs", "i32::abs", "Signed::abs", "BigInt::abs", "f64::abs", "Float::abs", "num::abs", "sign::abs", "i128::abs")
def _(I, a, t, w):
    x = num(a[0])
    r = absv(I, x, w)
    if r.ty in RANGES and r is not x and not I.in_range(r, r.ty):
        raise Panic("attempt to negate with overflow", w, [list(z) for z in I.stack])
    return r


@m("isize::wrapping_abs")
def _(I, a, t, w):
    x = num(a[0])
    r = absv(I, x, w)
    if r is not x and not I.in_range(r, r.ty):
        return x
    return r


@m("isize::unsigned_abs", "i64::unsigned_abs", "i32::unsigned_abs")
def _(I, a, t, w):
    x = num(a[0])
    r = absv(I, x, w)
    return Num({"Isize": "Usize", "I64": "U64", "I32": "U32"}[x.ty], r.t, r.tnt)


def checked(op, mode):
    def f(I, a, t, w):
        x = num(a[0])
        y = num(a[1]) if len(a) > 1 else None
        if op == "Abs":
            r = absv(I, x, w)
        elif op == "Neg":
            r = Num(x.ty, tm.neg(x.t), x.tnt)
        elif op in ("Div", "Rem"):
            if mode == "checked" and I.test("==", y, Num(y.ty, tm.ZERO)):
                return none()
            r = I.num_bin(op, x, y, w)
        elif op == "Pow":
            k = I.concrete(y, "exponent", 0, max(I.unroll, 4))
            r = Num(x.ty, mul(*([x.t] * k)) if k else tm.ONE, x.tnt)
        else:
            r = I.num_bin(op, x, y, w)
        ok = r.ty not in RANGES or I.in_range(r, r.ty)
        if mode == "checked":
            return some(r) if ok else none()
        if mode == "overflowing":
            return Tup([r, False]) if ok else Tup([I.wrapped(r, r.ty), True])
        if ok:
            return r
        if mode == "saturating":
            lo, hi = RANGES[r.ty]
            return Num(r.ty, const(hi if I.test(">", r, Num(r.ty, tm.ZERO)) else lo))
        return I.wrapped(r, r.ty)

    return f


for _t in ("isize", "usize", "i64", "i32", "u64", "u32", "i128", "u128", "BigInt", "BigUint", "CheckedAdd", "CheckedSub", "CheckedMul", "CheckedDiv"):
    for _o in ("Add", "Sub", "Mul", "Div", "Rem", "Abs", "Neg", "Pow"):
        for _md in ("checked", "wrapping", "saturating", "overflowing"):
            M.setdefault("%s::%s_%s" % (_t, _md, _o.lower()), checked(_o, _md))


def ipow(I, x, y, w):
    """x^y for a non-negative machine/big exponent"""
    if y.t.op == "c":
        k = int(y.t.args[0])
        if 0 <= k <= 64:
            return Num(x.ty, mul(*([x.t] * k)) if k else tm.ONE, x.tnt or y.tnt)
    r = Num(x.ty, pow_(x.t, y.t), x.tnt or y.tnt)
    # 0^0 is one here, unlike the reals
    if I.test("==", y, Num(y.ty, tm.ZERO)):
        return Num(x.ty, tm.ONE, r.tnt)
    I.ctx.facts.integral.add(r.t)
    return r


@m("Pow::pow", "BigInt::pow", "num::pow", "pow::pow", "isize::pow", "i64::pow", "i32::pow", "usize::pow", "u64::pow", "BigUint::pow")
def _(I, a, t, w):
    x, y = num(a[0]), num(a[1])
    if x.ty in FLOATS:
        return Num(x.ty, pow_(x.t, y.t), True)
    r = ipow(I, x, y, w)
    if r.ty in RANGES and not I.in_range(r, r.ty):
        raise Panic("attempt to multiply with overflow", w, [list(z) for z in I.stack])
    return r


@m("f64::powf", "Float::powf", "f64::powi", "Float::powi")
def _(I, a, t, w):
    x, y = num(a[0]), num(a[1])
    if x.t.op == "special" or y.t.op == "special":
        return I.special_bin("Pow", x, y)
    return Num("F64", pow_(x.t, y.t), True)


@m("f64::log", "Float::log")
def _(I, a, t, w):
    x, y = num(a[0]), num(a[1])
    if x.t.op == "special" or y.t.op == "special":
        return I.special_bin("Log", x, y)
    if I.bigfloat:
        # outside the domain the logarithm is an infinity or a NaN
        for z, at in ((x, tm.ZERO), (y, tm.ZERO), (y, tm.ONE)):
            if I.cmp3(z, Num(z.ty, at)) in ((-1, 0) if at is tm.ZERO else (0,)):
                return I.special_bin("Log", x, y)
    return Num("F64", log_(x.t, y.t), True)


@m("f64::ln", "Float::ln")
def _(I, a, t, w):
    return Num("F64", tfn("ln", num(a[0]).t), True)


M["f64::log10"] = M["Float::log10"] = lambda I, a, t, w: Num("F64", log_(num(a[0]).t, const(10)), True)
M["f64::log2"] = M["Float::log2"] = lambda I, a, t, w: Num("F64", log_(num(a[0]).t, const(2)), True)
M["f64::exp"] = M["Float::exp"] = lambda I, a, t, w: Num("F64", tfn("exp", num(a[0]).t), True)
M["f64::sqrt"] = M["Float::sqrt"] = lambda I, a, t, w: Num("F64", pow_(num(a[0]).t, const(Fraction(1, 2))), True)
M["f64::recip"] = M["Float::recip"] = lambda I, a, t, w: Num("F64", tm.div(tm.ONE, num(a[0]).t), True)
M["f64::sin"] = lambda I, a, t, w: Num("F64", tfn("sin", num(a[0]).t), True)
M["f64::cos"] = lambda I, a, t, w: Num("F64", tfn("cos", num(a[0]).t), True)
M["f64::mul_add"] = lambda I, a, t, w: Num("F64", add(mul(num(a[0]).t, num(a[1]).t), num(a[2]).t), True)
for _n in ("floor", "ceil", "round", "trunc"):
    M["f64::" + _n] = M["Float::" + _n] = (lambda n: lambda I, a, t, w: Num("F64", tfn(n, num(a[0]).t), True))(_n)


@m("f64::fract", "Float::fract")
def _(I, a, t, w):
    x = num(a[0])
    return Num("F64", tm.sub(x.t, tfn("trunc", x.t)), True)


@m("f64::is_nan", "Float::is_nan")
def _(I, a, t, w):
    x = num(a[0])
    return x.t.op == "special" and x.t.args[0] == "nan" or nonfinite(I, x) == 1


@m("f64::is_infinite", "Float::is_infinite")
def _(I, a, t, w):
    x = num(a[0])
    return x.t.op == "special" and "inf" in x.t.args[0] or nonfinite(I, x) == 2


@m("f64::is_finite", "Float::is_finite")
def _(I, a, t, w):
    x = num(a[0])
    return not (x.t.op == "special" and x.t.args[0] in ("nan", "inf", "-inf")) and not nonfinite(I, x)


def nonfinite(I, x):
    """0 when finite; where any float is an operand, one that is not counts too"""
    if not I.anyfloat or x.t.op != "a":
        return 0
    r = I.ctx.mark.get(("nonfinite", x.t))
    if r is None:
        r = I.ctx.mark[("nonfinite", x.t)] = I.ctx.choose(3, "%r finite, not a number, infinite" % (x.t,))
    return r


def fval(t):
    if t.op == "special":
        return float(t.args[0])
    if t.op == "c":
        return float(t.args[0])
    return None


@m("f64::to_bits", "Float::to_bits")
def _(I, a, t, w):
    x = num(a[0])
    v = fval(x.t)
    if v is not None:
        return Num("U64", const(struct.unpack("<Q", struct.pack("<d", v))[0]))
    return Num("U64", tm.mk("f", "bits", x.t))


@m("f64::total_cmp")
def _(I, a, t, w):
    x, y = num(a[0]), num(a[1])
    u, v = fval(x.t), fval(y.t)
    if u is None or v is None:
        return ordv(I.cmp3(x, y))

    def key(z):
        b = struct.unpack("<q", struct.pack("<d", z))[0]
        return b ^ (((1 << 63) - 1) if b < 0 else 0)

    p, q = key(u), key(v)
    return ordv((p > q) - (p < q))


@m("Float::integer_decode")
def _(I, a, t, w):
    x = num(a[0])
    v = fval(x.t)
    if v is None:
        return Tup([Num("U64", tm.mk("f", "idm", x.t)), Num("I16", tm.mk("f", "ide", x.t)), Num("I8", tm.mk("f", "ids", x.t))])
    bits = struct.unpack("<Q", struct.pack("<d", v))[0]
    s = 1 if bits >> 63 == 0 else -1
    e = (bits >> 52) & 0x7FF
    mm = (bits & 0xFFFFFFFFFFFFF) << 1 if e == 0 else (bits & 0xFFFFFFFFFFFFF) | 0x10000000000000
    return Tup([Num("U64", const(mm)), Num("I16", const(e - 1075)), Num("I8", const(s))])


# ----------------------------------------------------------- conversions
def conv_fits(ty):
    def f(I, a, t, w):
        x = num(a[0])
        if x.ty in FLOATS:
            if x.t.op == "special":
                return none()
            x = Num("BigInt", tfn("trunc", x.t), True)
        if I.in_range(x, ty):
            return some(Num(ty, x.t, x.tnt))
        return none()

    return f


for _r, _t in NTY.items():
    if _t in RANGES:
        M["ToPrimitive::to_" + _r] = conv_fits(_t)
        M["BigInt::to_" + _r] = conv_fits(_t)


@m("BigInt::to_biguint", "ToBigUint::to_biguint")
def _(I, a, t, w):
    x = num(a[0])
    if I.test(">=", x, Num(x.ty, tm.ZERO)):
        return some(Num("BigUint", x.t, x.tnt))
    return none()


@m("BigInt::magnitude", "BigInt::into_parts")
def _(I, a, t, w):
    x = num(a[0])
    r = absv(I, x, w)
    b = Num("BigUint", r.t, r.tnt)
    if t["def"].endswith("into_parts"):
        return Tup([sign_enum(I, sgn(I, x)), b])
    return Ref([b], 0)


@m("ToBigInt::to_bigint", "BigUint::to_bigint")
def _(I, a, t, w):
    x = num(a[0])
    return some(Num("BigInt", x.t, x.tnt))


BIGF = const(Fraction(2) ** 1024)


@m("ToPrimitive::to_f64", "BigInt::to_f64")
def _(I, a, t, w):
    x = num(a[0])
    if x.ty == "BigInt" and getattr(I, "bigfloat", False) and x.t.op != "c":
        if I.test(">=", x, Num(x.ty, BIGF)) or I.test("<=", x, Num(x.ty, tm.neg(BIGF))):
            return none()
    return some(I.to_float(x) if x.ty not in FLOATS else Num("F64", x.t, True))


@m("BitAnd::bitand", "Shl::shl", "Shr::shr")
def _(I, a, t, w):
    x, y = R(strip(a[0])), R(strip(a[1]))
    op = {"bitand": "BitAnd", "shl": "Shl", "shr": "Shr"}[t["def"].split("::")[-1]]
    if isinstance(x, bool):
        return x and y
    if not isinstance(x, Num) or not isinstance(y, Num):
        raise Unsupported("bit operation")
    return I.bits(op, x, y)


@m("FromPrimitive::from_f64", "FromPrimitive::from_isize", "FromPrimitive::from_i64", "FromPrimitive::from_usize", "FromPrimitive::from_u64", "FromPrimitive::from_i32")
def _(I, a, t, w):
    x = num(a[0])
    ty = NTY.get(head(self_type(t["inst"])), "BigInt")
    if x.ty in FLOATS and ty not in FLOATS:
        if x.t.op == "special":
            return none()
        return some(Num(ty, tfn("trunc", x.t), True))
    return some(Num(ty, x.t, x.tnt or ty in FLOATS))


@m("NumCast::from", "cast::cast", "num::cast")
def _(I, a, t, w):
    raise Unsupported("num cast")


@m("From::from", "Into::into", "BigInt::from", "TryFrom::try_from", "TryInto::try_into", "BigUint::from")
def _(I, a, t, w):
    inst = t["inst"]
    x = a[0]
    isinto = t["def"].endswith("into")
    tgt = ""
    if isinto:
        import re

        mm = re.search(r"(?:Into|TryInto)<(.*)>>::(?:try_)?into$", inst)
        tgt = mm.group(1) if mm else ""
    else:
        tgt = self_type(inst)
    h = head(tgt)
    tryc = "try" in t["def"].split("::")[-1]
    y = strip(x) if not isinstance(x, Num) else x
    if isinstance(y, Num):
        ty = NTY.get(h)
        if ty is None:
            if "BigInt" in tgt:
                ty = "BigInt"
            else:
                # a conversion defined in the crate
                return local_conv(I, x, tgt, w)
        if tryc:
            ok = ty not in RANGES or I.in_range(y, ty)
            return Adt(RESULT, 0, [Num(ty, y.t, y.tnt)]) if ok else Adt(RESULT, 1, [Opq("conversion error")])
        return Num(ty, y.t, y.tnt or ty in FLOATS)
    if isinstance(y, StrV):
        if h in ("String", "str", "Cow", ""):
            return y
        return local_conv(I, x, tgt, w)
    if isinstance(y, bool):
        ty = NTY.get(h)
        if ty:
            return Num(ty, const(int(y)))
    if isinstance(y, (Seq, Heap)):
        if h == "BinaryHeap":
            return Heap(list(y.items))
        if h in ("Vec", "VecDeque", "Box"):
            return Seq(list(y.items)) if isinstance(y, Seq) else Seq(list(y.items))
        if h in ("HashMap", "BTreeMap", "HashSet", "BTreeSet"):
            return collect(I, it_list(list(y.items)), tgt)
    if h == "Box" and isinstance(x, Ref) is False:
        return BoxV(x)
    if h == "Option":
        return some(x)
    if not isinto and is_expr(R(strip(x))) and h == "Expression":
        return x
    return local_conv(I, x, tgt, w)


def local_conv(I, x, tgt, w):
    l = []
    for (tr, ty, mm), fs in I.cr.impl_m.items():
        if tr == "From" and mm == "from" and ty == tgt:
            l += fs
    if len(l) == 1:
        return I.call_local(l[0], [x], w)
    if is_expr(R(strip(x))) and tgt.endswith("Expression"):
        return x
    raise Unsupported("conversion to " + tgt)


@m("BigInt::new", "BigInt::from_biguint", "BigInt::from_slice")
def _(I, a, t, w):
    if t["def"].endswith("from_biguint"):
        s = a[0].v - 1
        x = num(a[1])
        return Num("BigInt", tm.mul(const(s), x.t), x.tnt)
    raise Unsupported("BigInt::new")


# ----------------------------------------------------------------- strings
def join_p(p):
    out = []
    for x in p:
        if isinstance(x, str) and out and isinstance(out[-1], str):
            out[-1] += x
        elif x != "":
            out.append(x)
    return tuple(out)


@m("String::new", "String::with_capacity")
def _(I, a, t, w):
    return StrV(())


@m("str::to_string", "ToString::to_string", "SpecToString::spec_to_string")
def _(I, a, t, w):
    x = R(strip(a[0]))
    if isinstance(x, StrV):
        return x
    return StrV(join_p(display(I, x, w)))


@m("str::to_owned", "String::from", "str::into_string", "str::as_ref", "str::to_lowercase_ascii_unused")
def _(I, a, t, w):
    x = strip(a[0])
    if isinstance(x, StrV):
        return x
    raise Unsupported("string conversion")


@m("String::push_str", "String::push")
def _(I, a, t, w):
    r = a[0]
    while isinstance(r.get(), Ref):
        r = r.get()
    r.set(StrV(join_p(r.get().p + strip(a[1]).p)))
    return UNIT


@m("str::is_empty", "String::is_empty")
def _(I, a, t, w):
    s = strip(a[0])
    if not s.p:
        return True
    if any(isinstance(x, str) or x[0] in ("num", "numfmt", "expr") for x in s.p):
        return False
    return I.test("==", Num("Usize", str_len(I, s)), Num("Usize", tm.ZERO))


def str_len(I, s):
    """length of a string: the literal parts and a length per hole"""
    if I.exprmode == "order" and len(s.p) == 1 and isinstance(s.p[0], tuple) and s.p[0][0] in ("var", "strfn"):
        x = I.str_ord(s)
        if x is not None:
            r = tfn("strlen", x.t)
            I.ctx.facts.integral.add(r)
            I.ctx.facts.assume(">=", r, tm.ZERO)
            return r
    r = tm.ZERO
    for z in s.p:
        if isinstance(z, str):
            r = tm.add(r, const(len(z.encode("utf8"))))
            continue
        if z[0] == "num":
            u = tfn("declen", z[2])
            I.ctx.facts.integral.add(u)
            I.ctx.facts.assume(">=", u, tm.ONE)
        else:
            key = repr(z if z[0] != "expr" else z[1])
            m = I.ctx.mark.setdefault("lengths", {})
            if key not in m:
                n = I.ctx.fresh("len")
                I.ctx.kinds[n] = "int"
                m[key] = tm.atom(n)
                I.ctx.facts.integral.add(m[key])
                I.ctx.facts.assume(">=", m[key], tm.ONE if z[0] == "expr" else tm.ZERO)
            u = m[key]
        r = tm.add(r, u)
    return r


@m("str::len", "String::len", "str::as_bytes", "String::as_bytes", "str::chars", "String::into_bytes", "str::bytes", "str::char_indices")
def _(I, a, t, w):
    s = strip(a[0])
    n = t["def"].split("::")[-1]
    if n in ("as_bytes", "into_bytes"):
        return a[0]
    if n == "len":
        return Num("Usize", str_len(I, s))
    # the characters, where they are known
    if not all(isinstance(z, str) for z in s.p):
        raise Unsupported("characters of an unknown string")
    return it_list([StrV((c,)) for z in s.p for c in z])


def cut_str(I, s, r):
    """a part of a string: the whole of it, or pieces that are not complete"""
    h = r.n.split("::")[-1] if isinstance(r, Adt) else ""
    if h == "RangeFull":
        return s
    if all(isinstance(z, str) for z in s.p):
        x = "".join(s.p).encode("utf8")
        lo, hi = rng(I, r, len(x))
        return StrV(join_p((x[lo:hi].decode("utf8", "replace"),)))
    return StrV(tuple(z if isinstance(z, str) else ("cut", z) for z in s.p))


@m("str::get", "str::split_at", "str::char_indices")
def _(I, a, t, w):
    n = t["def"].split("::")[-1]
    if n == "get":
        return some(Ref([cut_str(I, strip(a[0]), a[1])], 0))
    raise Unsupported("str::" + n)


@m("String::truncate", "String::drain", "String::remove", "String::pop", "String::clear", "String::insert", "String::insert_str")
def _(I, a, t, w):
    n = t["def"].split("::")[-1]
    r = a[0]
    while isinstance(r.get(), Ref):
        r = r.get()
    s = r.get()
    if n == "clear":
        r.set(StrV(()))
        return UNIT
    if n == "truncate":
        if I.test(">=", a[1], Num("Usize", str_len(I, s))):
            return UNIT
        r.set(StrV(tuple(z if isinstance(z, str) else ("cut", z) for z in s.p)))
        return UNIT
    raise Unsupported("String::" + n)


@m(
    "str::to_lowercase", "str::to_uppercase", "str::to_ascii_lowercase", "str::to_ascii_uppercase", "str::trim", "str::trim_end", "str::trim_start",
    "str::trim_matches", "str::trim_start_matches", "str::trim_end_matches", "str::trim_left", "str::trim_right", "str::trim_ascii", "str::trim_ascii_start", "str::trim_ascii_end",
    "str::replace", "str::replacen", "str::repeat", "str::strip_prefix", "str::strip_suffix",
)
def _(I, a, t, w):
    s = strip(a[0])
    n = t["def"].split("::")[-1]
    if all(isinstance(x, str) for x in s.p):
        x = "".join(s.p)
        f = {"to_lowercase": x.lower, "to_uppercase": x.upper, "to_ascii_lowercase": x.lower, "to_ascii_uppercase": x.upper, "trim": x.strip, "trim_start": x.lstrip, "trim_end": x.rstrip}.get(n)
        if f is None:
            raise Unsupported("str::" + n)
        return StrV(join_p((f(),)))
    if n in ("strip_prefix", "strip_suffix"):
        raise Unsupported("str::" + n)
    if len(s.p) == 1 and isinstance(s.p[0], tuple):
        if s.p[0][0] == "num" and n != "repeat":
            # a number's digits have no case, no blanks
            if n.startswith("to_") or n in ("trim", "trim_start", "trim_end"):
                return s
        return StrV((("strfn", "strmap", s.p[0], n),))
    raise Unsupported("string mapping")


@m("str::eq_ignore_ascii_case")
def _(I, a, t, w):
    x, y = (strip(z) for z in a)
    if x.p == y.p:
        return True
    if len(x.p) == len(y.p) == 1 and isinstance(x.p[0], tuple) and isinstance(y.p[0], tuple):
        return I.str_eq(StrV((("strfn", "strmap", x.p[0], "to_ascii_lowercase"),)), StrV((("strfn", "strmap", y.p[0], "to_ascii_lowercase"),)))
    raise Unsupported("case")


def display(I, x, w):
    """pieces of the textual form of x (a hole per component)"""
    x = R(strip(x))
    if isinstance(x, StrV):
        return x.p
    if isinstance(x, Num):
        return (("num", x.ty, x.t),)
    if is_expr(x):
        return (("expr", I.ident(x), x),)
    f = I.local_impl("Display", x, "fmt")
    if f is not None:
        buf = [StrV(())]
        I.call_fn(f, [Ref([x], 0), Ref(buf, 0)])
        return buf[0].p
    if isinstance(x, Opq):
        return (("opaque", id(x)),)
    raise Unsupported("display of %s" % type(x).__name__)


@m("Argument::new_display", "Argument::new_debug")
def _(I, a, t, w):
    return Adt("vp::Arg", 0, [a[0], t["def"].endswith("new_debug")])


@m("Arguments::from_str", "Arguments::new_const", "Arguments::from_str_nonconst")
def _(I, a, t, w):
    x = strip(a[0])
    if isinstance(x, Seq):
        p = ()
        for y in x.items:
            p += strip(y).p
        return Adt("vp::Args", 0, [StrV(join_p(p))])
    return Adt("vp::Args", 0, [x])


@m("Arguments::new", "Arguments::new_v1")
def _(I, a, t, w):
    tpl = strip(a[0])
    args = strip(a[1]).items
    bs = []
    if isinstance(tpl, Seq):
        for y in tpl.items:
            y = strip(y)
            if not isinstance(y, Num):
                raise Unsupported("format template")
            bs.append(int(y.t.args[0]))
    else:
        raise Unsupported("format template")
    p = []
    i = 0
    nxt = 0
    while i < len(bs):
        b = bs[i]
        i += 1
        if b == 0:
            break
        if b < 0x80:
            p.append(bytes(bs[i : i + b]).decode("utf8", "replace"))
            i += b
        elif b == 0x80:
            n = bs[i] + 256 * bs[i + 1]
            i += 2
            p.append(bytes(bs[i : i + n]).decode("utf8", "replace"))
            i += n
        else:
            k = nxt
            if b & 1:
                i += 4
            if b & 2:
                i += 2
            if b & 4:
                i += 2
            if b & 8:
                k = bs[i] + 256 * bs[i + 1]
                i += 2
            nxt = k + 1
            arg = args[k]
            x = R(strip(arg.f[0]))
            if not arg.f[1]:
                q = display(I, arg.f[0], w)
            else:
                q = debug(I, arg.f[0], w)
            if b & 4:
                # a precision cuts digits and letters off
                q = tuple(z if isinstance(z, str) else ("cut", z) for z in q)
            p.extend(q)
    return Adt("vp::Args", 0, [StrV(join_p(tuple(p)))])


def emit(I, f, p):
    r = f
    while isinstance(r, Ref) and isinstance(r.get(), Ref):
        r = r.get()
    x = r.get() if isinstance(r, Ref) else r
    if isinstance(x, StrV) and isinstance(r, Ref):
        r.set(StrV(join_p(x.p + p)))
    elif isinstance(x, Opq) or x is None:
        pass
    else:
        raise Unsupported("formatter")
    return Adt(RESULT, 0, [UNIT])


@m("Formatter::write_fmt", "Write::write_fmt")
def _(I, a, t, w):
    return emit(I, a[0], a[1].f[0].p)


@m("Formatter::write_str", "Write::write_str", "Formatter::pad")
def _(I, a, t, w):
    return emit(I, a[0], strip(a[1]).p)


@m("Formatter::write_char", "Write::write_char")
def _(I, a, t, w):
    return emit(I, a[0], strip(a[1]).p)


@m("Display::fmt")
def _(I, a, t, w):
    return emit(I, a[1], display(I, a[0], w))


def debug(I, x, w):
    """pieces of the {:?} text of x, collections in the order they are held"""
    x = R(strip(x))
    if isinstance(x, StrV):
        return ('"',) + x.p + ('"',)
    if isinstance(x, Num):
        if x.ty in FLOATS and x.t.op == "c":
            return (str(float(x.t.args[0])),)
        return (("num", x.ty, x.t),)
    if isinstance(x, bool):
        return ("true" if x else "false",)
    if is_expr(x) and not isinstance(x, Adt):
        return display(I, x, w)
    if isinstance(x, (Seq, Heap)):
        p = ("[",)
        for i, y in enumerate(x.items):
            p += ((", ",) if i else ()) + debug(I, y, w)
        return p + ("]",)
    if isinstance(x, Tup):
        p = ("(",)
        for i, y in enumerate(x.f):
            p += ((", ",) if i else ()) + debug(I, y, w)
        return p + (")",)
    if isinstance(x, Adt):
        if x.n == OPTION:
            return ("None",) if x.v == 0 else ("Some(",) + debug(I, x.f[0], w) + (")",)
        f = I.local_impl("Debug", x, "fmt")
        if f is not None:
            buf = [StrV(())]
            I.call_fn(f, [Ref([x], 0), Ref(buf, 0)])
            return buf[0].p
        p = (x.n.split("::")[-1], "#%d(" % (x.v or 0))
        for i, y in enumerate(x.f):
            p += ((", ",) if i else ()) + debug(I, y, w)
        return p + (")",)
    return (("debug", id(x)),)


@m("Debug::fmt")
def _(I, a, t, w):
    return emit(I, a[1], debug(I, a[0], w))


def debug_parts(I, a, t, w):
    """what a derived Debug writes: the name, then the fields"""
    p = strip(a[1]).p if isinstance(strip(a[1]), StrV) else ("?",)
    for x in a[2:]:
        y = strip(x)
        if isinstance(y, Seq):
            for z in y.items:
                p += (", ",) + debug(I, z, w)
        elif not (isinstance(y, StrV) and isinstance(x, StrV)):
            p += (", ",) + debug(I, x, w)
    return emit(I, a[0], p)


for _k in ("struct_field1", "struct_field2", "struct_field3", "struct_field4", "struct_field5", "struct_fields", "tuple_field1", "tuple_field2", "tuple_field3", "tuple_field4", "tuple_field5", "tuple_fields"):
    M["Formatter::debug_%s_finish" % _k] = debug_parts


@m("fmt::format")
def _(I, a, t, w):
    return a[0].f[0]


# ------------------------------------------------------------------ panics
def panic(msg):
    def f(I, a, t, w):
        txt = msg
        if a and isinstance(strip(a[0]), StrV):
            s = strip(a[0])
            txt += ": " + "".join(x for x in s.p if isinstance(x, str))
        elif a and isinstance(a[0], Adt) and a[0].n == "vp::Args":
            txt += ": " + "".join(x for x in a[0].f[0].p if isinstance(x, str))
        raise Panic(txt, w, [list(z) for z in I.stack])

    return f


M["option::unwrap_failed"] = M["option::expect_failed"] = panic("unwrap of None")
M["result::unwrap_failed"] = M["unwrap_failed::unwrap_failed_inner"] = lambda I, a, t, w: (_ for _ in ()).throw(Panic("unwrap of Err", w, [list(z) for z in I.stack]))
M["rt::begin_panic"] = M["panicking::panic"] = M["panicking::panic_fmt"] = M["rt::panic_fmt"] = M["panicking::begin_panic"] = panic("panic")
M["panicking::panic_explicit"] = M["rt::panic_display"] = M["panicking::panic_display"] = M["panicking::unreachable_display"] = panic("panic")
M["panicking::panic_str_2015"] = M["panicking::panic_nounwind"] = M["panicking::panic_cannot_unwind"] = panic("panic")
M["panicking::assert_failed"] = panic("assertion failed")
M["process::exit"] = M["process::abort"] = panic("process exit")
M["unreachable_unchecked::precondition_check"] = lambda I, a, t, w: UNIT


@m("panic::catch_unwind", "thread::spawn")
def _(I, a, t, w):
    raise Unsupported(t["def"])


@m("Any::type_id", "TypeId::of")
def _(I, a, t, w):
    raise Unsupported("type_id")
