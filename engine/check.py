"""check.py ID [quick|thorough]: decides one property on REPO's current source."""
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

import mir
import props
import spec
import verdict

sys.setrecursionlimit(20000)

CR = None
OBS = None
EVID = os.environ.get("VP_EVID") or os.path.join(mir.VERIF, "evidence")
KNOWN = os.path.join(mir.VERIF, "known-findings.txt")


def work(i):
    ob = OBS[i]
    try:
        if ob.direct is not None:
            t0 = time.time()
            st, fs = ob.direct(CR)
            st.setdefault("s", time.time() - t0)
        else:
            st, fs = verdict.run_ob(spec.build(CR), ob)
    except Exception:
        return i, None, [], traceback.format_exc()
    return i, st, [(f.key(), f.text(), f.fn, "%s:%s" % (f.file, f.line)) for f in fs], ""


def known(pid):
    """keys of the listed, unrepaired findings of this property"""
    out = {}
    if os.path.exists(KNOWN):
        for ln in open(KNOWN):
            ln = ln.strip()
            if ln.startswith("known: property=%s " % pid):
                rest = ln[len("known: property=%s " % pid) :]
                out[rest.split(" :: ")[0]] = rest
    return out


def main():
    global CR, OBS
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    rep = os.path.join(EVID, "%s.violation.txt" % pid)
    if os.path.exists(rep):
        os.remove(rep)
    out = []  # violations
    notes = []
    stats = {}
    listed = known(pid)
    seen_known = set()
    errors = []
    try:
        CR = mir.extract()
        OBS = props.PROPS[pid](CR, tier == "thorough")
    except props.Anchor as e:
        out.append(("anchor|%s" % e, "a public item this property is about is missing: %s" % e, "", ""))
        OBS = []
    except mir.Broken as e:
        # a tree that does not compile is nobody's working tree: say so, loudly
        print("cannot analyse: %s" % e)
        sys.exit(2)
    budget = float(os.environ.get("VP_BUDGET", "780"))
    n = int(os.environ.get("VP_JOBS", "0")) or min(8, os.cpu_count() or 1)
    if OBS:
        # the biggest obligations first
        order = sorted(range(len(OBS)), key=lambda i: -OBS[i].weight())
        with mp.Pool(n, maxtasksperchild=1) as pool:
            it = pool.imap_unordered(work, order)
            for _ in order:
                try:
                    i, st, fs, err = it.next(timeout=max(1.0, t0 + budget - time.time()))
                except mp.TimeoutError:
                    notes.append("time budget used up: the remaining obligations were not analysed")
                    break
                if err:
                    errors.append((OBS[i].name, err))
                    continue
                stats[i] = st
                for k, text, fn, where in fs:
                    k = k.replace("\n", " ")
                    if k in listed:
                        seen_known.add(k)
                    else:
                        out.append((k, text, fn, where))
    agg = {}
    verd = {}
    why = {}
    touched = set()
    per = []
    for i in sorted(stats):
        st = stats[i]
        for k in ("paths", "done", "panics", "undecided", "cut", "infeasible"):
            agg[k] = agg.get(k, 0) + st.get(k, 0)
        for k, v in st["verdicts"].items():
            verd[k] = verd.get(k, 0) + v
        for k, v in st.get("why", {}).items():
            why[k] = why.get(k, 0) + v
        touched |= set(st["touched"])
        per.append(
            {
                "obligation": OBS[i].name,
                "partitions": st.get("paths", 0),
                "verdicts": st["verdicts"],
                "undecided": st.get("undecided", 0) + st.get("cut", 0),
                "every_partition_visited": bool(st.get("exhausted")),
            }
        )
    for nm, e in errors:
        why["internal error in %s: %s" % (nm, e.strip().splitlines()[-1])] = 1
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "other",
        "coverage": {
            "explanation": "Static analysis of the type-resolved MIR of %s's current source. Each obligation is one public entry point "
            "(or one rule implementation) with abstract arguments; the interpreter visits its trace partitions and each reached end "
            "is judged by the property's rule. No code of the crate is run." % os.path.basename(mir.REPO),
            "obligations": len(OBS),
            "analysed_obligations": len(stats),
            "partitions": agg.get("paths", 0),
            "partitions_returning": agg.get("done", 0),
            "partitions_panicking": agg.get("panics", 0),
            "partitions_undecided": agg.get("undecided", 0) + agg.get("cut", 0),
            "verdicts": verd,
            "undecided_because": dict(sorted(why.items(), key=lambda x: -x[1])[:12]),
            "functions_interpreted": len(touched),
            "functions": sorted(CR.fns[x].short if isinstance(x, int) else x for x in touched)[:150],
            "per_obligation": per[:120],
            "notes": notes,
        },
        "assumptions": props.ASSUME.get(pid, props.ASSUME[""]),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(out),
    }
    with open(os.path.join(EVID, "%s.json" % pid), "w") as fh:
        json.dump(ev, fh, indent=1)
        fh.write("\n")
    for k in sorted(seen_known):
        print("KNOWN-FINDING: property=%s %s" % (pid, listed[k]))
    print(
        "%s %s: %d obligations, %d partitions (%d undecided), %d functions, verdicts %s, %.1fs"
        % (pid, tier, len(OBS), agg.get("paths", 0), agg.get("undecided", 0) + agg.get("cut", 0), len(touched), verd, time.time() - t0)
    )
    for nm, e in errors:
        print("internal error in %s\n%s" % (nm, e))
    for nt in notes:
        print("note: " + nt)
    if out:
        with open(rep, "w") as fh:
            for k, text, fn, where in out:
                fh.write("key: %s\n%s\n\n" % (k, text))
        for k, text, fn, where in out[:20]:
            print(text[:3000])
            print()
        print("VIOLATION property=%s replay=%s" % (pid, rep))
        sys.exit(1)
    if OBS and not stats:
        print("no obligation could be analysed")
        sys.exit(2)
    sys.exit(0)


if __name__ == "__main__":
    main()
