import sys, time
import mir, spec, props, verdict
cr = mir.extract()
I = spec.build(cr)
deep = "deep" in sys.argv
pat = [a for a in sys.argv[2:] if a != "deep"]
for pid in sys.argv[1].split(","):
    T = time.time()
    for ob in props.PROPS[pid](cr, deep):
        if pat and not any(p in ob.name for p in pat): continue
        I = spec.build(cr)
        st, fs = verdict.run_ob(I, ob) if ob.direct is None else ob.direct(cr)
        print(pid, ob.name, "%.1fs" % st.get("s",0), {k: v for k, v in st.items() if k not in ("why", "touched", "s", "verdicts")}, st["verdicts"])
        for k, v in sorted(st["why"].items(), key=lambda x: -x[1])[:3]: print("    ?", v, k)
        for f in fs[:3]: print("  !!", f.text()[:1500])
    print(pid, "total %.1fs" % (time.time() - T))
