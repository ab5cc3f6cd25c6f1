import sys, subprocess, os, time
sys.path.insert(0, os.path.dirname(__file__))
import ir, exec as X, discharge
from term import *
def main():
    jl = sys.argv[1]
    names = sys.argv[2:]
    t0 = time.time()
    m = ir.Module(jl)
    for n in names or [x[12:] for x in m.raw if x.startswith("vp_contract_")]:
        ex = X.Exec(m, verbose=True)
        t0 = time.time()
        try:
            ex.run_contract(n)
        except X.Unsupported as e:
            print(n, "UNSUPPORTED", e)
            if os.environ.get("TB"): raise
        t1 = time.time()
        print("==", n, "paths", ex.paths, "steps", ex.steps, "obs", len(ex.obs), "implicit", ex.implicit, "summ", ex.summ_ok, "feas", ex.feas.n, "%.1fs" % (t1 - t0), "BOUNDED %s" % ex.bounded if ex.bounded else "", ex.assumed or "")
        res = {}
        for o in ex.obs:
            t = time.time()
            r = discharge.prove(o.pc, o.goal, 10, ex.feas)
            dt = time.time() - t
            k = (o.label, r.ok, r.how[:40] if r.ok is not True else "")
            res.setdefault(k, [0, 0.0])
            res[k][0] += 1
            res[k][1] += dt
            if r.ok is not True and (os.environ.get("V") or res[k][0] == 1):
                print("   FAIL", o.label, o.where[:60], r.how, show(o.goal)[:int(os.environ.get("W", "300"))])
                print("      pc:", " & ".join(show(c) for c in o.pc)[:int(os.environ.get("W", "300"))*2])
                if r.model: print("      model", {k: v for k, v in r.model.items() if '!' not in k or 1})
        for k, (c, dt) in res.items():
            if k[1] is True and dt < 3 and not os.environ.get("V"): continue
            print("   %-30s %-6s %-30s x%d %.2fs" % (k + (c, dt)))
        print("   proved:", ", ".join(sorted({k[0] for k in res if k[1] is True} | set(getattr(ex, "trivial", {})))))
        for l, c in ():
            print("   %-30s trivial x%d" % (l, c))
main()
