"""one.py INSTR VARIANT|- OBLIGATIONS [a=b,..] : decide the obligations of one configuration, verbosely"""
import sys,time; sys.path.insert(0,'/verif/engine'); sys.setrecursionlimit(100000)
import harn, prog, props_chain as P, sol
ch=harn.Chain()
instr=sys.argv[1]; var=None if sys.argv[2]=="-" else int(sys.argv[2]); ob=getattr(P,sys.argv[3])
names=[r for r,_ in sol.ROLES[instr]]
cl=[[names.index(x) for x in p.split("=")] for p in sys.argv[4].split(",")] if len(sys.argv)>4 else None
ctx=prog.Ctx(instr,cl); ctx.prog_inv(); cs=prog.data_cells(instr,ctx,var)
if ob is P.ob_live: ctx.assume.extend(P.live_assumptions(ctx))
rec=harn.Rec(); pv=harn.Prover(rec)
n=0
for o in prog.explore(ch.mod,ctx,cs):
    v=harn.View(ctx,o); n+=1
    for t,g,*mm in ob(v):
        t0=time.time(); d0=dict(rec.discharged)
        try: r=pv.decide(o.pc,g,*mm)
        except harn.Inconclusive as e: r=repr(e)
        dt=time.time()-t0
        how=[k for k in rec.discharged if rec.discharged[k]!=d0.get(k)]
        if dt>.8 or r!="proved": print(n,o.kind,t,how,"%.2f"%dt,str(r)[:300],flush=True)
