"""mutants.py FILE [ids]: development aid, no check uses it.

FILE defines M = [dict(id, prop, file, subs=[(old, new), ..], demo, needs, breaks, checks=[..])].
For each mutant, in a scratch copy of /repo: apply, build and run the tests, run the demonstration on
the clean and the changed tree, run the checks on the changed tree. With SAVE=1 keep it under /verif/seeded.
"""
import concurrent.futures as cf
import importlib.util
import json
import os
import shutil
import subprocess as sp
import sys
import tempfile
import time

REPO = "/repo"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUST_BACKTRACE="0")
DEMO_SH = """#!/bin/bash
# run with the repository as the working directory
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
export PATH=$PATH:/root/.cargo/bin
tmp=$(mktemp -d) || exit 99
trap 'find "$tmp" -delete' EXIT
mkdir "$tmp/src"
cp "$here/demo.rs" "$tmp/src/main.rs"
cp "$repo/Cargo.lock" "$tmp/Cargo.lock" 2>/dev/null
cat > "$tmp/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2018"
[dependencies]
ncas = { path = "$repo" }
num = "0.3.0"
[workspace]
EOF
cd "$tmp" && CARGO_TARGET_DIR="$tmp/target" cargo build --offline -q 2>"$tmp/log" || { cat "$tmp/log"; exit 98; }
cd / && timeout 60 "$tmp/target/debug/demo"
"""
HEAD = """#![allow(unused_imports, dead_code, unused_variables)]
use ncas::base::expression::Expression;
use ncas::base::symbol::Symbol;
use ncas::base::commutative_association::CommutativeAssociation;
use num::bigint::BigInt;
fn v(s: &str) -> Expression { Symbol::variable(s).expr() }
fn n(i: isize) -> Expression { Symbol::integer(i).expr() }
fn r(x: f64) -> Expression { Symbol::real(x).expr() }

"""


def run(cmd, cwd, env=ENV, t=600):
    p = sp.run(cmd, cwd=cwd, env=env, stdout=sp.PIPE, stderr=sp.STDOUT, text=True, timeout=t)
    return p.returncode, p.stdout


def one(m):
    out = {"id": m["id"], "prop": m["prop"]}
    d = tempfile.mkdtemp(prefix="mut_%s_" % m["id"], dir="/tmp")
    try:
        w = os.path.join(d, "repo")
        sp.run(["cp", "-a", REPO, w], check=True)
        for f, subs in m["edits"]:
            p = os.path.join(w, f)
            s = open(p).read()
            for sub in subs:
                a, b = sub[:2]
                k = s.count(a)
                if k < 1 or (k > 1 and len(sub) < 3):
                    out["err"] = "pattern found %d times in %s: %s" % (k, f, a[:80])
                    return out
                if len(sub) > 2 and sub[2] != "all":
                    parts = s.split(a)
                    i = sub[2]
                    s = a.join(parts[: i + 1]) + b + a.join(parts[i + 1 :])
                else:
                    s = s.replace(a, b)
            open(p, "w").write(s)
        env = dict(ENV, CARGO_TARGET_DIR=os.path.join(w, "target"))
        rc, o = run(["cargo", "test", "--offline", "--lib"], w, env)
        # one test is not among the stable ones
        bad = [x.split()[1] for x in o.splitlines() if x.startswith("test ") and x.endswith("FAILED") and "simplifies_division_2" not in x]
        ran = sum(x.startswith("test ") and " ... " in x for x in o.splitlines())
        rc = 0 if ran >= 122 and not bad else (bad or 101)
        out["tests"] = rc
        if rc:
            out["log"] = "" if bad else "\n".join(x for x in o.splitlines() if x.startswith(("error", "  -->")))[-800:]
            if not m.get("force"):
                return out
        if m.get("demo"):
            dd = os.path.join(d, "demo")
            os.mkdir(dd)
            open(os.path.join(dd, "demo.rs"), "w").write(HEAD + m["demo"])
            open(os.path.join(dd, "demo.sh"), "w").write(DEMO_SH)
            if m.get("quiet") is None:
                rc0, o0 = run(["bash", os.path.join(dd, "demo.sh")], REPO)
                out["demo_clean"] = rc0
                if rc0:
                    out["log"] = o0[-1500:]
                rc1, o1 = run(["bash", os.path.join(dd, "demo.sh")], w)
                out["demo_mut"] = rc1
                out["demo_log"] = o1[-300:]
        rc, diff = run(["git", "diff"], w)
        out["diff"] = diff
        res = {}
        for c in m.get("checks") or [m["prop"]]:
            ev = tempfile.mkdtemp(prefix="ev", dir=d)
            t0 = time.time()
            rc, o = run(["/verif/check", c], "/verif", dict(ENV, VP_REPO=w, VP_EVID=ev, VP_JOBS=os.environ.get("VP_JOBS", "3")), 900)
            res[c] = (rc, round(time.time() - t0, 1))
            out["out_" + c] = o[-2500:]
        out["checks"] = res
        if os.environ.get("SAVE") and not out.get("err") and out["tests"] == 0 and out.get("demo_clean") == 0 and out.get("demo_mut"):
            s = os.path.join("/verif/seeded", m["id"])
            os.makedirs(s, exist_ok=True)
            open(os.path.join(s, "patch.diff"), "w").write(diff)
            open(os.path.join(s, "demo.rs"), "w").write(HEAD + m["demo"])
            open(os.path.join(s, "demo.sh"), "w").write(DEMO_SH)
            json.dump({"property": m["prop"], "needs": m["needs"], "what_it_breaks": m["breaks"]}, open(os.path.join(s, "meta.json"), "w"), indent=1)
        return out
    except Exception as e:
        out["err"] = repr(e)
        return out
    finally:
        shutil.rmtree(d)


def main():
    sp_ = importlib.util.spec_from_file_location("m", sys.argv[1])
    mod = importlib.util.module_from_spec(sp_)
    sp_.loader.exec_module(mod)
    ids = sys.argv[2:]
    ms = [m for m in mod.M if not ids or m["id"] in ids]
    with cf.ThreadPoolExecutor(int(os.environ.get("J", "4"))) as ex:
        for o in ex.map(one, ms):
            print("%-28s %s tests=%s demo=%s/%s checks=%s %s" % (o["id"], o["prop"], o.get("tests"), o.get("demo_clean"), o.get("demo_mut"), o.get("checks"), o.get("err", "")), flush=True)
            if o.get("tests") or o.get("demo_clean") or (o.get("demo_mut") == 98) :
                print(o.get("log", ""), o.get("demo_log", ""))
            if os.environ.get("V"):
                for k in o:
                    if k.startswith("out_"):
                        print(o[k])


if __name__ == "__main__":
    main()
