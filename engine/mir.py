"""Builds the extractor when needed, runs it on /repo's current source and loads
the type-resolved MIR it wrote.  Nothing of the analysed crate is executed."""
import fcntl
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
TOOL = "nightly-x86_64-unknown-linux-gnu"
INLINE = ",".join(
    [
        "std::option::",
        "core::option::",
        "std::result::",
        "core::result::",
        "std::cmp::",
        "core::cmp::",
        "std::ops::",
        "core::ops::",
        "core::bool::",
        "std::convert::",
        "core::convert::",
        "core::num::",
        "std::default::",
        "num_integer::",
        "num_traits::",
        "num::integer::",
        "num::traits::",
        "num::pow::",
    ]
)


class Broken(Exception):
    """the analysed crate does not compile / the extractor failed"""


def _env():
    e = dict(os.environ)
    e["RUSTUP_TOOLCHAIN"] = TOOL
    e.pop("RUSTC_WRAPPER", None)
    return e


def sysroot():
    r = subprocess.run(["rustc", "--print", "sysroot"], env=_env(), capture_output=True, text=True)
    if r.returncode:
        raise Broken("no nightly toolchain: " + r.stderr[-400:])
    return r.stdout.strip()


def build_driver(verbose=False):
    src = os.path.join(VERIF, "driver")
    out = os.path.join(BUILD, "driver", "debug", "mirdump")
    h = hashlib.sha256()
    for f in ("Cargo.toml", "src/main.rs"):
        with open(os.path.join(src, f), "rb") as fh:
            h.update(fh.read())
    stamp = os.path.join(BUILD, "driver.stamp")
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == h.hexdigest():
        return out
    os.makedirs(BUILD, exist_ok=True)
    r = subprocess.run(
        ["cargo", "build", "--offline", "--target-dir", os.path.join(BUILD, "driver")],
        cwd=src,
        env=_env(),
        capture_output=True,
        text=True,
    )
    if r.returncode:
        raise Broken("extractor does not build: " + r.stderr[-1500:])
    with open(stamp, "w") as fh:
        fh.write(h.hexdigest())
    return out


def source_hash():
    h = hashlib.sha256()
    names = []
    for base, dirs, files in os.walk(os.path.join(REPO, "src")):
        dirs.sort()
        for f in sorted(files):
            names.append(os.path.join(base, f))
    for f in ("Cargo.toml", "Cargo.lock"):
        names.append(os.path.join(REPO, f))
    for n in names:
        if os.path.exists(n):
            h.update(n.encode())
            with open(n, "rb") as fh:
                h.update(fh.read())
    with open(os.path.join(VERIF, "driver", "src", "main.rs"), "rb") as fh:
        h.update(fh.read())
    h.update(INLINE.encode())
    return h.hexdigest()[:24]


def extract():
    """returns the loaded dump for the current working tree of REPO"""
    driver = build_driver()
    os.makedirs(BUILD, exist_ok=True)
    key = source_hash()
    cached = os.path.join(BUILD, "mir-%s.json" % key)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    if not os.path.exists(cached):
        # the analysed crate is compiled from a private copy of its sources:
        # cargo never writes inside REPO, and checks may run side by side
        work = tempfile.mkdtemp(prefix="mir", dir=BUILD)
        try:
            for f in ("Cargo.toml", "Cargo.lock"):
                p = os.path.join(REPO, f)
                if os.path.exists(p):
                    shutil.copy(p, work)
            shutil.copytree(os.path.join(REPO, "src"), os.path.join(work, "src"))
            tgt = os.path.join(BUILD, "target")
            # cargo must call the extractor again whatever it cached (both build
            # directory layouts)
            for sub, pre in ((".fingerprint", "ncas-"), ("build", "ncas"), ("incremental", "ncas-")):
                fp = os.path.join(tgt, "debug", sub)
                if os.path.isdir(fp):
                    for x in os.listdir(fp):
                        if x == "ncas" or x.startswith(pre):
                            shutil.rmtree(os.path.join(fp, x), ignore_errors=True)
            e = _env()
            e["LD_LIBRARY_PATH"] = os.path.join(sysroot(), "lib")
            e["RUSTC_WORKSPACE_WRAPPER"] = driver
            e["CARGO_TARGET_DIR"] = tgt
            e["VP_OUT"] = os.path.join(work, "out.json")
            e["VP_INLINE"] = INLINE
            e["RUSTFLAGS"] = "-Zmir-opt-level=0 -Zmir-enable-passes=-CheckAlignment,-CheckNull"
            r = subprocess.run(
                ["cargo", "check", "--lib", "--offline", "--locked"], cwd=work, env=e, capture_output=True, text=True
            )
            if r.returncode or not os.path.exists(e["VP_OUT"]):
                raise Broken("the crate does not compile: " + r.stderr[-2000:])
            os.replace(e["VP_OUT"], cached)
        finally:
            shutil.rmtree(work, ignore_errors=True)
        # keep only the newest few dumps
        olds = sorted(
            (os.path.join(BUILD, f) for f in os.listdir(BUILD) if f.startswith("mir-") and f.endswith(".json")),
            key=os.path.getmtime,
        )
        for o in olds[:-6]:
            try:
                os.remove(o)
            except OSError:
                pass
    data = json.load(open(cached))
    lock.close()
    return Crate(data)


def strip_generics(s):
    """remove balanced ::<...> groups that are not `<impl ...>` or a leading <T as Tr>"""
    out = []
    i = 0
    while i < len(s):
        if s.startswith("::<", i) and not s.startswith("::<impl ", i):
            d = 0
            j = i + 2
            while j < len(s):
                if s[j] == "<":
                    d += 1
                elif s[j] == ">" and s[j - 1] != "-":
                    d -= 1
                    if d == 0:
                        break
                j += 1
            i = j + 1
            continue
        out.append(s[i])
        i += 1
    return "".join(out)


def split_path(s):
    parts, d, cur = [], 0, ""
    i = 0
    while i < len(s):
        c = s[i]
        if c == "<":
            d += 1
        elif c == ">" and s[i - 1] != "-":
            d -= 1
        if d == 0 and s.startswith("::", i):
            parts.append(cur)
            cur = ""
            i += 2
            continue
        cur += c
        i += 1
    parts.append(cur)
    return parts


def key_of(name):
    """short key: last two path segments, impl blocks replaced by their type"""
    parts = split_path(strip_generics(name))
    out = []
    for p in parts[-2:]:
        m = re.match(r"^<impl (.*) for (.*)>$", p)
        if m:
            p = strip_generics(m.group(1)).split("<")[0].split("::")[-1]
        else:
            m = re.match(r"^<impl (.*)>$", p)
            if m:
                p = m.group(1)
                p = {"[T]": "slice"}.get(p, p.split("<")[0].split("::")[-1])
            else:
                m = re.match(r"^<(.*) as (.*)>$", p)
                if m:
                    p = m.group(2).split("<")[0].split("::")[-1]
        p = p.split("<")[0] if not p.startswith("<") else p
        out.append(p)
    return "::".join(out)


class Fn:
    __slots__ = ("id", "inst", "name", "local", "span", "argc", "locals", "names", "spread", "blocks", "short")


class Crate:
    def __init__(self, d):
        self.d = d
        self.types = d["types"]
        self.adts = d["adts"]
        self.items = d["items"]
        self.impls = d["impls"]
        self.fns = {}
        self.by_def = {}
        self.by_inst = {}
        for f in d["fns"]:
            x = Fn()
            x.id, x.inst, x.name, x.local, x.span = f["id"], f["inst"], f["def"], f["local"], f["span"]
            x.argc = f.get("argc", 0)
            x.locals = f.get("locals")
            x.names = dict((a, b) for a, b in f.get("names", []))
            x.spread = f.get("spread")
            x.blocks = f.get("blocks")
            x.short = self.shorten(x.inst)
            self.fns[x.id] = x
            self.by_def.setdefault(x.name, []).append(x)
            self.by_inst[x.inst] = x
        # local trait impl methods: (trait, self type, method) -> fns
        self.impl_m = {}
        for f in self.fns.values():
            if not f.local:
                continue
            parts = split_path(strip_generics(f.inst))
            if len(parts) < 2 or "{closure" in parts[-1]:
                continue
            p = parts[-2]
            m = re.match(r"^<impl (.*) for (.*)>$", p) or None
            if m:
                tr, ty = m.group(1), m.group(2)
            else:
                m = re.match(r"^<(.*) as (.*)>$", p)
                if not m:
                    continue
                ty, tr = m.group(1), m.group(2)
            self.impl_m.setdefault((tr.split("<")[0].split("::")[-1], ty, parts[-1]), []).append(f)

    def shorten(self, s):
        s = re.sub(r"ncas::(?:[a-z_]+::)*<impl (ncas::)?", "<impl ncas::", s)
        s = re.sub(r"(?:ncas|std|core|num|alloc)::(?:[a-z_]+::)*", "", s)
        return s

    def tyname(self, i):
        t = self.types[i]
        k = t["k"]
        if k == "adt":
            return t["n"]
        if k in ("int", "uint", "float"):
            return t["n"]
        if k in ("bool", "char", "str"):
            return k
        return k

    def loc(self, f, line):
        return "%s:%s (%s)" % (f.span[0] if f.span else "?", line, f.short)


def refs_of(x, out):
    if isinstance(x, dict):
        if isinstance(x.get("fn"), int):
            out.add(x["fn"])
        for v in x.values():
            refs_of(v, out)
    elif isinstance(x, list):
        for v in x:
            refs_of(v, out)


def cyclic(cr):
    """local functions on a cycle of the call graph"""
    g = {}
    for f in cr.fns.values():
        o = set()
        if f.blocks:
            refs_of(f.blocks, o)
        g[f.id] = o
    out = set()
    for f in cr.fns.values():
        if not f.local:
            continue
        seen, todo = set(), list(g[f.id])
        while todo:
            i = todo.pop()
            if i in seen:
                continue
            seen.add(i)
            todo += g.get(i, ())
        if f.id in seen:
            out.add(f.id)
    return out
