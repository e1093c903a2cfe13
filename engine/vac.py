import sys
import mir, spec, props, verdict, terms as tm
cr = mir.extract(); I = spec.build(cr)
pid, pat, n = sys.argv[1], sys.argv[2], int(sys.argv[3])
def r(I, ob, p, hit, count):
    global n
    v = verdict.result_value(I, p.value); s = ob.term(I, [verdict.strip(x) for x in p.args])
    k, m, w = tm.compare(p.ctx.facts, p.ctx.defs, p.ctx.kinds, v, s)
    if k == "vacuous" and n > 0:
        n -= 1
        print("VAC", p.args, "->", p.value); 
        for x in p.ctx.facts.list: print("     ", x[1], x[0], x[2])
        sm=tm.Sampler(p.ctx.facts,p.ctx.defs,p.ctx.kinds); print("     dead",sm.dead, {k:str(v) for k,v in sm.defs.items()}, "kinds", p.ctx.kinds)
for ob in props.PROPS[pid](cr, False):
    if pat in ob.name:
        ob.rules = (r,); verdict.run_ob(I, ob)
