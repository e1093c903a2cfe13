"""Lengths the crate's code singles out.  The ordinary obligations use short
collections; where a function compares or limits something by a small literal
number (there is none on the reviewed tree), the same obligations are repeated with
collections around that length."""


def literals(cr, top=40):
    """small integer literals of the crate's own functions, tests aside"""
    out = set()

    def scan(x):
        if isinstance(x, dict):
            v = x.get("v")
            if isinstance(x.get("ty"), int) and isinstance(v, dict) and v.get("c") == "int":
                if cr.types[x["ty"]]["k"] in ("int", "uint"):
                    n = abs(int(v["v"]))
                    if 2 <= n <= top:
                        out.add(n)
            for y in x.values():
                scan(y)
        elif isinstance(x, list):
            for y in x:
                scan(y)

    for f in cr.fns.values():
        if not (f.local and f.blocks):
            continue
        disc = set()
        for b in f.blocks:
            for s in b["s"]:
                scan(s)
                if s[0] == "a" and isinstance(s[2], list) and s[2] and s[2][0] == "disc":
                    disc.add(s[1][0])
            t = b["t"]
            scan(t)
            # match on a number
            if t[0] == "switch" and t[1][0] in "cm" and t[1][1][0] not in disc:
                ty = cr.types[f.locals[t[1][1][0]]]["k"] if not t[1][1][1] else "int"
                if ty in ("int", "uint"):
                    out.update(int(v) for v, _ in t[2] if 2 <= int(v) <= top)
    return sorted(out)


def consts(cr, kind):
    """every constant of one kind in the crate's own functions"""
    out = set()

    def scan(x):
        if isinstance(x, dict):
            v = x.get("v")
            if isinstance(v, dict) and v.get("c") == kind and "v" in v:
                ty = x.get("ty")
                t = cr.types[ty]["k"] if isinstance(ty, int) else None
                if kind != "int" or t in ("int", "uint"):
                    out.add(v["v"])
            for y in x.values():
                scan(y)
        elif isinstance(x, list):
            for y in x:
                scan(y)

    for f in cr.fns.values():
        if f.local and f.blocks:
            scan([f.blocks[i] for i in range(len(f.blocks))])
    return out


def texts(cr, most=12):
    """short pieces of text in the code"""
    out = sorted(w for w in consts(cr, "str") if isinstance(w, str) and 0 < len(w) <= 6)
    out += sorted(chr(int(c)) for c in consts(cr, "char"))
    return out[:most]


def numbers(cr, most=16):
    """machine integers in the code that are not small"""
    out = sorted({abs(int(v)) for v in consts(cr, "int")})
    out = [v for v in out if 3 < v]
    return out if len(out) <= most else [out[i * (len(out) - 1) // (most - 1)] for i in range(most)]


def floats(cr, most=12):
    import struct

    out = []
    for v in consts(cr, "f64"):
        x = struct.unpack("<d", struct.pack("<Q", int(v)))[0]
        if x == x and abs(x) not in (0.0, 1.0, float("inf")):
            out.append(x)
    return sorted(out)[:most]


def sizes(cr, most=5):
    """lengths at and around every such literal"""
    s = set()
    for c in literals(cr, 130):
        s.update((c, c + 1))
    s = sorted(n for n in s if n > 2)
    # spread over the range when there are many
    if len(s) > most:
        s = [s[i * (len(s) - 1) // (most - 1)] for i in range(most)]
    return s


def exponents(cr, most=6):
    """numbers at and around the literals, of either sign, beyond the ordinary ones"""
    s = set()
    for c in literals(cr, 128):
        s.update((c, c + 1, -c, -c - 1))
    s = sorted(n for n in s if not -4 < n < 5)
    if len(s) > most:
        s = [s[i * (len(s) - 1) // (most - 1)] for i in range(most)]
    return s


def products(cr, most=400):
    """lengths that two literals give together"""
    l = literals(cr)
    s = sorted({a * b + 1 for a in l for b in l if 40 < a * b < most})
    return s if len(s) <= 4 else [s[i * (len(s) - 1) // 3] for i in range(4)]


# ------------------------------------------------------------- obligations
def few(seq, n):
    import itertools

    return list(itertools.islice(itertools.cycle(seq), n))


def named(ob, ns):
    ob.name += " with collections of %s" % ns
    return ob


def operands(cr, rules, deep, only=None, **o):
    """constructors, manipulations and rules around the singled-out lengths"""
    import props
    from interp import ADD, CA, EXPR, INT, LOG, MUL, POW, VAR, Seq
    from spec import CONSTRUCT, ex, exref, vec
    from verdict import Ob

    ns = sizes(cr)
    if not ns:
        return []
    api = props.api
    out = []
    ca = frozenset([MUL, ADD])
    u = max(60, 2 * ns[-1] + 10)
    q = dict(maxpaths=2, samples=60, seconds=12, unroll=u) if not deep else dict(maxpaths=200, samples=2000, seconds=120, unroll=u)
    q.update(o)
    names = [n for n in CONSTRUCT if only is None or n in only]
    for t in ("Add", "Sub", "Mul", "Div"):
        if only is None or t in only:
            out += [named(x, ns) for x in props.op_obs(cr, t, rules, lens=ns, **q)]
    if only is None or "Neg" in only:
        out += [named(x, ns) for x in props.neg_obs(cr, rules, lens=ns, **q)]
    for n in names:
        f, t = api(cr, EXPR, n), CONSTRUCT[n]
        if n in ("addition", "multiplication"):
            for k in ns:
                out.append(Ob("%s of %d" % (n, k), f, (lambda k: lambda I: [vec(I, k)])(k), t, rules, **q))
                out.append(Ob("%s of %d variables" % (n, k), f, (lambda k: lambda I: [vec(I, k, frozenset([VAR]))])(k), t, rules, **q))
            out.append(Ob("%s with a collection of %s" % (n, ns), f, lambda I: [Seq([ex(I, ca), ex(I)])], t, rules, lens=ns, **q))
        elif n in ("expand", "simplify"):
            out.append(Ob("%s of a collection of %s" % (n, ns), f, lambda I: [ex(I, ca)], t, rules, lens=ns, **q))
        else:
            dom = props.div_dom if n == "division" else None
            for a, b, w in ((ca, None, "left"), (None, ca, "right")):
                out.append(
                    Ob("%s with a collection of %s on the %s" % (n, ns, w), f, (lambda a, b: lambda I: [ex(I, a) if a else ex(I), ex(I, b) if b else ex(I)])(a, b), t, rules, domain=dom, lens=ns, **q)
                )
    if only is None or "rules" in only:
        for n, f in sorted(props.rule_fns(cr).items()):
            out.append(Ob("%s::apply, collections of %s" % (n, ns), f, lambda I: [exref(I, ex(I, ca))], lambda I, a: I.val(a[0]), rules, lens=ns, **q))
    return out


def schemes(cr):
    """schematic inputs around the singled-out lengths: (sums, products, distributions)"""
    S, P, D = [], [], []
    for n in sizes(cr):
        v = ["a%d" % i for i in range(n)]
        N = ["N%d" % i for i in range(n)]
        S.append(("+",) + tuple(("*", x, "a") for x in N))
        S.append(("+",) + tuple(v) + (v[0],))
        S.append(("+",) + tuple(v) + tuple(v))
        S.append(("+",) + tuple(("/", 1, p) for p in few((2, 3, 5, 7), n)))
        S.append(("+",) + tuple(("*", x, y) for x, y in zip(v, v[1:] + v[:1])) + (("*", v[1], v[0]),))
        P.append(("*",) + tuple(("^", "a", x) for x in few((2, 3, "b", "c"), n)))
        P.append(("*",) + tuple(v) + (v[0],))
        P.append(("*",) + tuple(v) + tuple(v))
        P.append(("*",) + tuple(("^", x, "z") for x in v) + (v[0],))
        P.append(("*",) + tuple(("/", 1, p) for p in few((2, 3, 5, 7), n)))
        D.append(("*", ("+",) + tuple(v), ("+", "b", "c")))
        D.append(("*", ("+",) + tuple(v), "b"))
        D.append(("*", ("+",) + tuple(v), ("+", "b", "c"), ("+", "d", "e")))
        if n <= 7:
            D.append(("^", ("+", "a", "b"), n))
            D.append(("*",) + tuple(("+", x, "b") for x in v[: min(n, 5)]))
        D.append(("*",) + tuple(v) + (("+", "b", "c"),))
        D.append(("^", ("*", ("+", "b", "c")) + tuple(v), 2))
        D.append(("+",) + tuple(("*", "a", ("+", "b", "c")) for x in v))
        D.append(("+",) + tuple(("*", x, ("+", "b", "c")) for x in v))
    for e in exponents(cr):
        D.append(("^", ("+", "a", "b"), e))
        D.append(("*", "c", ("^", ("+", "a", "b"), e)))
        D.append(("^", ("+", "a", "b"), ("*", e, "c")))
        D.append(("^", ("*", "c", ("+", "a", "b")), e))
        P.append(("*", ("^", "a", e), ("^", "a", 1 - e)))
        P.append(("*", ("^", "a", e), "a", ("^", "b", "N0")))
        P.append(("*", ("^", "a", e), ("^", "a", e + 1)))
        S.append(("+", ("*", e, "a"), ("*", "N0", "a")))
        S.append(("+", ("*", e, ("^", "a", e)), ("^", "a", e)))
        S.append(("+", e, ("/", "N0", "N1"), "a"))
    d, c = towers(cr)
    return S + c, P, D + d


def depths(cr, most=3):
    """depths of nesting just beyond a literal"""
    s = [n + 1 for n in literals(cr, 16)]
    if len(s) > most:
        s = [s[i * (len(s) - 1) // (most - 1)] for i in range(most)]
    return s


def towers(cr):
    """one operation inside itself to such a depth, with something to do at the bottom:
    (for distributing, for collecting)"""
    ways = [
        lambda x, k: ("log", x, "z"),
        lambda x, k: ("log", "z", x),
        lambda x, k: ("^", "z", x),
        lambda x, k: ("+", ("^", "z", x), "y"),
        lambda x, k: ("*", ("log", x, "z"), "y"),
        lambda x, k: ("^", ("+", ("^", "z", x), "y"), "x"),
    ]
    D, S = [], []
    for n in depths(cr):
        for w in ways:
            x, y = ("*", "a", ("+", "b", "c")), ("+", "a", "a")
            for k in range(n):
                x, y = w(x, k), w(y, k)
            D.append(x)
            S.append(y)
    return D, S


# ------------------------------------------------- nestings, one after the other
INNER = ["c", ("+", "c", "d"), ("*", "c", "d"), ("^", "c", "d"), ("log", "c", "d"), ("^", ("+", "c", "d"), -1), ("^", ("+", "c", "d"), 2), 2, ("/", 1, 2), ("*", -1, "c"), ("*", "c", ("+", "d", "e")), ("*", 2, "c")]
OUTER = INNER[1:]


def renamed(t, by):
    if isinstance(t, tuple):
        return (t[0],) + tuple(renamed(x, by) for x in t[1:])
    return by.get(t, t)


def nestings():
    """every operation on every two of a family of operands"""
    by = {"c": "a", "d": "b", "e": "f"}
    out = []
    for op in ("+", "*", "^", "log", "/"):
        for i, x in enumerate(INNER):
            for j, y in enumerate(INNER):
                if (op in "+*" and j < i) or not (isinstance(x, tuple) or isinstance(y, tuple)) or op == "/" and not isinstance(y, tuple):
                    continue
                out.append((op, renamed(x, by), y))
    return out


def deeper(n, seed=7):
    """operations on such operations, a fixed choice of them"""
    import random

    r = random.Random(seed)

    def tree(d):
        if d == 0 or r.random() < 0.15:
            return r.choice("abcd")
        k = r.random()
        if k < 0.3:
            return ("+",) + tuple(tree(d - 1) for _ in range(r.choice((2, 2, 3))))
        if k < 0.55:
            return ("*",) + tuple(tree(d - 1) for _ in range(r.choice((2, 2, 3))))
        if k < 0.78:
            return ("^", tree(d - 1), r.choice((2, 2, 3, -1, -2, ("*", 2, "c"), ("*", 2, ("+", "c", "d")), tree(d - 1), ("/", 1, 2), ("*", -1, "d"))))
        if k < 0.85:
            return ("/", tree(d - 1), tree(d - 1))
        if k < 0.9:
            return ("-", tree(d - 1), tree(d - 1))
        return ("log", tree(d - 1), tree(d - 1))

    out = []
    while len(out) < n:
        t = tree(3)
        if isinstance(t, tuple) and t not in out:
            out.append(t)
    return out


def chains(n):
    """one sum, wrapped n times in every way"""
    ways = [
        lambda x, v: ("+", x, v),
        lambda x, v: ("*", x, v),
        lambda x, v: ("^", x, v),
        lambda x, v: ("^", v, x),
        lambda x, v: ("log", x, v),
        lambda x, v: ("log", v, x),
        lambda x, v: ("^", x, 2),
        lambda x, v: ("^", x, -1),
    ]
    out = [("+", "a", "b")]
    for k in range(n):
        out = [w(x, "cdefgh"[k]) for x in out for w in ways]
    return out


def nested(deep):
    return nestings() + deeper(60 if not deep else 300) + chains(3)
