import sys,time
import prog, ll, smt, native, solve
from collections import Counter
lls,so,t=prog.build_program(); mod=ll.Module(lls)
shim=native.build_shim(prog.BUILD)
for ins in (sys.argv[1:] or ["set","stake","unstake","withdraw","initialize"]):
    for var in ((0,1) if ins=="set" else (None,)):
        t=time.time(); tm=tn=0
        ctx=prog.Ctx(ins); ctx.prog_inv(); cells=prog.data_cells(ins,ctx,var)
        c=Counter(); n=0
        for o in prog.explore(mod,ctx,cells):
            n+=1
            t0=time.time()
            e=solve.Models().get(o.pc); d=time.time()-t0; tm+=d; (d>3 and print("slow",d,o.kind,o.info.get("code"),o.info.get("why")))
            if not isinstance(e,dict): c[("nomodel",e,o.kind,o.info.get("code"),o.info.get("why"))]+=1; continue
            t0=time.time()
            r=native.run(shim,so,ctx,e,cells); tn+=time.time()-t0
            a=native.agree(ctx,o,e,r)
            c[("agree" if a is None else a[:400])]+=1
        print(ins,n,time.time()-t,tm,tn,c)
