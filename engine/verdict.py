"""Turns trace partitions into verdicts: each rule looks at the partitions of one
entry point and reports the construct that breaks it."""
import signal
import threading
import time

import spec
import terms as tm
from interp import (
    ADD, CA, EXPR, ESym, INT, KINDS, KNAME, LOG, MUL, NUMK, POW, REAL, SYM, Adt, BoxV, Cut, Heap, Infeasible, Num, Panic, R, Ref, Seq,
    Unsupported, explore, is_expr, strip,
)


class Finding:
    def __init__(self, rule, fn, file, line, msg, path, witness=""):
        self.rule, self.fn, self.file, self.line = rule, fn, file, line
        self.msg, self.path, self.witness = msg, path, witness

    def key(self):
        return "%s|%s|%s" % (self.rule, self.fn, self.msg)

    def text(self):
        s = "%s:%s in %s\n  rule: %s\n  %s" % (self.file, self.line, self.fn, self.rule, self.msg)
        if self.witness:
            s += "\n  witness valuation: " + self.witness
        if self.path:
            s += "\n  partition (decisions from the entry):\n    " + "\n    ".join(self.path)
        return s


def show_trace(ctx):
    out = []
    for lab, c, n in ctx.trace:
        if isinstance(lab, tuple) and lab[0] == "kind":
            ks = lab[2][c]
            out.append("%s is %s" % (lab[1], "|".join(KNAME[k] for k in ks)))
        elif isinstance(lab, tuple):
            out.append("%s -> %s" % (lab, c))
        elif lab.startswith("kind of "):
            out.append("%s = option %d of %d" % (lab, c, n))
        elif lab.startswith("cmp "):
            out.append("%s -> option %d of %d" % (lab, c, n))
        else:
            out.append("%s : %s" % (lab, ("yes" if c == 0 else "no") if n == 2 else c))
    return [o[:240] for o in out[:40]]


def show_val(w):
    if w is None:
        return ""
    env, a, b = w
    return "%s gives %s where %s is required" % (
        ", ".join("%s=%s" % (k, fmt(v)) for k, v in sorted(env.items())[:12]),
        fmt(a),
        fmt(b),
    )


def fmt(v):
    s = str(v)
    return s if len(s) < 40 else s[:37] + "..."


class Ob:
    """one proof obligation: an entry point, its abstract arguments, the rules"""

    def __init__(self, name, fn, setup, term=None, rules=("value",), run=None, **opt):
        self.name, self.fn, self.setup, self.term, self.rules, self.run, self.opt = name, fn, setup, term, rules, run, opt
        self.direct = None

    def weight(self):
        o = dict(DEFAULTS)
        o.update(self.opt)
        return o["maxpaths"] * o["maxpay"] + 2 * o["samples"]


class Direct(Ob):
    """an obligation decided by a function of its own: direct(cr) -> (stats, findings)"""

    def __init__(self, name, direct, weight=1):
        Ob.__init__(self, name, None, None)
        self.direct, self.w = direct, weight

    def weight(self):
        return self.w


DEFAULTS = dict(maxpay=2, unroll=3, maxpaths=4000, flips=(False,), bigfloat=False, samples=0, seconds=60)


class Over(BaseException):
    pass


def limited(f, seconds):
    """run f for at most so long; whether it came to its end"""
    if threading.current_thread() is not threading.main_thread():
        f()
        return True

    def over(*a):
        raise Over()

    old = signal.signal(signal.SIGALRM, over)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        f()
        return True
    except Over:
        return False
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def run_ob(I, ob):
    """returns (stats, findings)"""
    o = dict(DEFAULTS)
    o.update(ob.opt)
    I.maxpay, I.unroll, I.bigfloat = o["maxpay"], o["unroll"], o["bigfloat"]
    I.exprmode = o.get("exprmode", "value")
    I.unordered = bool(o.get("unordered"))
    I.raw = bool(o.get("raw"))
    I.lens = o.get("lens")
    I.names = bool(o.get("spy"))
    I.inkinds = KINDS - {REAL} if o.get("noreal") else KINDS
    I.anyfloat = bool(o.get("anyfloat"))
    I.maxdepth = o.get("maxdepth", 12)
    I.inl_max = o.get("inl_max", 1)
    I.MAXSTEPS = o.get("steps", 300000 if o.get("follow") else 30000)
    if o.get("follow"):
        # calls are followed, not summarised
        I.contracts = {}
    I.touched = set()
    finds = {}
    res = {}
    t0 = time.time()

    def hit(rule, p, msg, where=None, witness="", key=None):
        f, line = where if where else getattr(p.ctx, "ret", (ob.fn, ob.fn.span[1]))
        x = Finding(rule, f.short, f.span[0], line, msg, show_trace(p.ctx), witness)
        if key:
            # what fails, told apart from other failures of the same rule
            x.key = lambda: key
        finds.setdefault(x.key() + "|" + str(line), x)

    def count(k):
        res[k] = res.get(k, 0) + 1

    def on(p):
        if p.kind == "return":
            for r in ob.rules:
                if callable(r):
                    try:
                        r(I, ob, p, hit, count)
                    except (Unsupported, Infeasible, Cut) as e:
                        count("unread result")
                    continue
                RULES[r](I, ob, p, hit, count)
        elif p.kind in ("undecided", "cut") and ob.opt.get("partial"):
            ob.opt["partial"](I, ob, p, hit, count)
        elif p.kind == "panic":
            if "panic" in ob.rules:
                rule_panic(I, ob, p, hit, count)

    total = dict(paths=0, done=0, panics=0, undecided=0, cut=0, infeasible=0, exhausted=True, why={})

    def merge(st):
        for k, v in st.items():
            if k == "why":
                for a, b in v.items():
                    total["why"][a] = total["why"].get(a, 0) + b
            elif k == "exhausted":
                total[k] = total[k] and v
            else:
                total[k] += v

    run = ob.run or (lambda I, a: I.call_fn(ob.fn, a))

    def passes():
        for flip in o["flips"]:
            I.order_flip = flip
            merge(explore(I, ob.setup, run, maxpaths=o["maxpaths"], on_path=on, deadline=t0 + o["seconds"]))
        more()

    def more():
        if o.get("retry") and res.get("not compared"):
            # the summaries of the calls were too coarse to compare: follow the calls
            I.order_flip = False
            I.contracts = {}
            I.MAXSTEPS = 300000
            I.maxpay, I.unroll = 3, 4
            res["not compared by summaries"] = res.pop("not compared")
            for k, rnd in ((o["retry"], None), (o["retry"], 1)):
                merge(explore(I, ob.setup, run, maxpaths=k, on_path=on, deadline=time.time() + o["seconds"], rnd=rnd))
        if o["samples"]:
            I.order_flip = False
            st = explore(I, ob.setup, run, maxpaths=o["samples"], on_path=on, deadline=t0 + 2 * o["seconds"], rnd=1)
            merge(st)

    if not limited(passes, (5 if o.get("retry") else 3) * o["seconds"] + 20):
        # one partition alone can take that long (very long collections)
        total["cut"] += 1
        total["exhausted"] = False
        total["why"]["cut: time limit of the obligation"] = 1
    total["verdicts"] = res
    total["s"] = time.time() - t0
    total["touched"] = sorted(I.touched)
    return total, list(finds.values())


def result_value(I, v):
    """denotation of an entry's result (an expression, a symbol)"""
    x = R(strip(v))
    if isinstance(x, Adt) and x.n == SYM:
        d = x.f[0]
        if isinstance(d, Num):
            return d.t
    if isinstance(x, Num):
        return x.t
    return I.val(x)


def rule_value(I, ob, p, hit, count):
    try:
        v = result_value(I, p.value)
        s = ob.term(I, [strip(x) for x in p.args])
    except Unsupported:
        count("unread result")
        return
    r, n, wit = tm.compare(p.ctx.facts, p.ctx.defs, p.ctx.kinds, v, s, allow=ob.opt.get("allow"))
    count(r)
    if r == "differ":
        hit(
            "denotation of %s" % ob.name,
            p,
            "result %s does not denote %s" % (tm.show(v)[:160], tm.show(s)[:160]),
            None,
            show_val(wit),
        )


# ------------------------------------------------------------------ panics
def conditional(I, ctx):
    """does the partition rest on a guess about a summarised result?"""
    for s in ctx.syms:
        if s.inp:
            continue
        if s.alias is not None or s.payload is not None or s.kinds != KINDS:
            return True
    names = {s.name for s in ctx.syms if not s.inp}
    for op, a, b in ctx.facts.list:
        if (tm.atoms(a) | tm.atoms(b)) & names:
            return True
    return False


def rule_panic(I, ob, p, hit, count):
    if conditional(I, p.ctx):
        count("panic on a summarised result")
        return
    w = tm.feasible(p.ctx.facts, p.ctx.defs, p.ctx.kinds, allow=domain(ob, p))
    if w is None:
        count("panic outside the domain")
        return
    count("panic")
    f, line = p.exc.where if p.exc.where and p.exc.where[0] is not None else (ob.fn, ob.fn.span[1])
    # report the crate's own frame
    if not f.local:
        for g, ln in (x[:2] for x in reversed(p.exc.stack)):
            if g.local:
                f, line = g, ln
                break
    hit(
        "no reachable panic from %s" % ob.name,
        p,
        "panic reachable: %s" % p.exc.msg,
        (f, line),
        ", ".join("%s=%s" % (k, fmt(v)) for k, v in sorted(w.items())[:12]),
    )


def domain(ob, p):
    """valuations inside the documented domain"""
    d = ob.opt.get("domain")
    if d is None or p.args is None:
        return None
    ts = [t for t in d([strip(a) for a in p.args])]

    def ok(env):
        try:
            for t in ts:
                if tm.ev(t, env, env.flags) == 0:
                    return False
        except Exception:
            return False
        return True

    return ok


# --------------------------------------------------------------- exactness
def walk(I, x, f, depth=0):
    """every constructed node of a result (symbolic parts are leaves)"""
    x = R(strip(x))
    f(x)
    if depth > 40 or not isinstance(x, Adt):
        return
    for y in x.f:
        if isinstance(y, Adt):
            for z in y.f:
                if isinstance(z, (Heap, Seq)):
                    for i in z.items:
                        walk(I, i, f, depth + 1)
                elif isinstance(z, BoxV):
                    walk(I, z.f[0], f, depth + 1)


def subterm(t, u):
    if t is u:
        return True
    return any(isinstance(a, tm.T) and subterm(a, u) for a in t.args)


def rule_exact(I, ob, p, hit, count):
    bad = []
    ctx = p.ctx
    real_in = any(isinstance(R(s), ESym) and R(s).kinds == frozenset([REAL]) for s in ctx.syms) or any(
        n.startswith("f") and k == "real" for n, k in ctx.kinds.items()
    )

    def see(x):
        if not (isinstance(x, Adt) and x.n == EXPR and x.v in NUMK):
            return
        n = x.f[0].f[0]
        if not isinstance(n, Num):
            return
        if x.v == REAL and not real_in:
            bad.append(("a real number is built where no operand is real", n))
        if x.v == INT and n.tnt and n.t.op != "c":
            if not any(subterm(a, n.t) or subterm(b, n.t) for a, b in ctx.exact_eqs):
                bad.append(("an integer is read back from a floating point result and not checked exactly", n))

    try:
        v = R(strip(p.value))
        if isinstance(v, Adt) and v.n == SYM:
            n = v.f[0]
            if isinstance(n, Num) and n.ty == "BigInt" and n.tnt and n.t.op != "c":
                if not any(subterm(a, n.t) or subterm(b, n.t) for a, b in ctx.exact_eqs):
                    bad.append(("an integer is read back from a floating point result and not checked exactly", n))
        else:
            walk(I, v, see)
    except Unsupported:
        count("unread result")
        return
    if not bad:
        count("exact")
        return
    if tm.feasible(ctx.facts, ctx.defs, ctx.kinds) is None:
        count("vacuous")
        return
    count("inexact")
    for msg, n in bad[:1]:
        hit("integers stay exact in %s" % ob.name, p, "%s: %s" % (msg, tm.show(n.t)[:160]))


# ---------------------------------------------------------- canonical form
def possible(I, p, extra=()):
    """valuation with additional equalities"""
    import copy

    f = copy.deepcopy(p.ctx.facts) if extra else p.ctx.facts
    return f


def with_facts(p, extra):
    """copy of the partition's facts with more assumptions; None when contradictory"""
    f = tm.Facts()
    f.integral = set(p.ctx.facts.integral)
    for op, a, b in p.ctx.facts.list:
        f.assume(op, a, b)
    for op, a, b in extra:
        if f.decide(op, a, b) is False:
            return None
        f.assume(op, a, b)
    return f


def could(I, p, extra, tries=300):
    f = with_facts(p, extra)
    if f is None:
        return False
    return tm.feasible(f, p.ctx.defs, p.ctx.kinds, tries=tries) is not None


def canon_bad(I, p, x, depth=0):
    """first canonical-form breach of a constructed result, or None.  Symbolic
    parts (inputs, summarised results) are canonical by assumption."""
    x = R(strip(x))
    if depth > 30 or not (isinstance(x, Adt) and x.n == EXPR):
        return None
    k = x.v
    pl = x.f[0]
    if k in (MUL, ADD):
        items = [R(strip(i)) for i in I.ca_items(pl)]
        if len(items) < 2:
            return "a %s of %d item(s)" % (KNAME[k], len(items))
        for i in items:
            b = canon_bad(I, p, i, depth + 1)
            if b:
                return b
        for i in items:
            ks = I.kindset(i)
            if k in ks and (i is x or len(ks) == 1 or (isinstance(i, ESym) and i.inp)):
                if len(ks) == 1 or reach(I, p):
                    return "a %s directly inside a %s" % (KNAME[k], KNAME[k])
            # neutral and absorbing numbers
            if ks <= NUMK:
                v = I.val(i)
                if k == MUL:
                    if INT in ks and (eqv(I, p, v, tm.ZERO) or eqv(I, p, v, tm.ONE)):
                        return "a neutral or zero integer kept inside a product"
                    if ks == frozenset([REAL]) and (eqv(I, p, v, tm.ZERO) or eqv(I, p, v, tm.ONE)):
                        return "a neutral or zero real kept inside a product"
                else:
                    if eqv(I, p, v, tm.ZERO):
                        return "a zero kept inside a sum"
        for kind in (INT, REAL):
            n = [i for i in items if I.kindset(i) == frozenset([kind])]
            m = [i for i in items if isinstance(i, ESym) and i.inp and kind in i.kinds and len(i.kinds) > 1]
            c = n + m
            if len(n) >= 2 or any(not sibs(a, b) for i, a in enumerate(c) for b in c[:i]) and reach(I, p):
                return "two %s numbers side by side in a %s" % (KNAME[kind], KNAME[k])
        return None
    if k in (POW, LOG):
        b, m = I.pair_parts(pl)
        for y in (b, m):
            c = canon_bad(I, p, y, depth + 1)
            if c:
                return c
        if k == POW:
            b, m = R(b), R(m)
            kb, km = I.kindset(b), I.kindset(m)
            if POW in kb and (len(kb) == 1 or (isinstance(b, ESym) and b.inp and reach(I, p))):
                return "a power raised to a power"
            if km <= NUMK:
                v = I.val(m)
                if eqv(I, p, v, tm.ZERO) or eqv(I, p, v, tm.ONE):
                    return "a power with exponent 0 or 1"
            if kb <= NUMK:
                v = I.val(b)
                if eqv(I, p, v, tm.ZERO) or eqv(I, p, v, tm.ONE):
                    return "a power with base 0 or 1"
            if kb == frozenset([INT]) and km == frozenset([INT]):
                v = I.val(m)
                if p.ctx.facts.decide("==", v, tm.MONE) is not True and could(I, p, [("!=", v, tm.MONE)]):
                    return "an integer power left unevaluated"
            if (kb == frozenset([INT]) and km == frozenset([REAL])) or (kb == frozenset([REAL]) and km <= NUMK):
                return "a numeric power left unevaluated"
    return None


def sibs(a, b):
    """items of one collection: at most one of them is a number of each kind"""
    ra, rb = getattr(a, "role", None), getattr(b, "role", None)
    return ra is not None and rb is not None and ra[0] == rb[0] and ra[0] in ("mul", "add") and ra[1] is rb[1]


def reach(I, p):
    return tm.feasible(p.ctx.facts, p.ctx.defs, p.ctx.kinds) is not None


def eqv(I, p, v, c):
    d = p.ctx.facts.decide("==", v, c)
    if d is not None:
        return d and reach(I, p)
    return could(I, p, [("==", v, c)])


def rule_canon(I, ob, p, hit, count):
    try:
        b = canon_bad(I, p, p.value)
    except Unsupported:
        count("unread result")
        return
    if b is None:
        count("canonical")
        return
    if not reach(I, p):
        count("vacuous")
        return
    count("not canonical")
    hit("canonical form built by %s" % ob.name, p, b)


RULES = {"value": rule_value, "panic": lambda *a: None, "exact": rule_exact, "canon": rule_canon}
