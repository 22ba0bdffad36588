import sys; sys.path[:0]=['/verif',__import__('os').environ.get('TORCHMPS_REPO','/repo')]
import sx,time
from sx import explore,sweep,solve,loader
loader.install()
import importlib
P=importlib.import_module('props.'+sys.argv[1])
name=sys.argv[2]
c=[c for t in ('quick','thorough') for c in P.configs(t) if c['name']==name][0]
od=explore.Runner.decide
def decide(self,ctx,goals,kind,**k):
    if kind=='branch':
        print("BRANCH on",str(goals[0])[:300], goals[0].kind, [ (sweep.depth(b),) for v in self.values_of(goals[0]) for m,_ in v.items for b,_e in m.items if b.kind=='sum'][:3])
        for env in self.pool[:2]:
            ev=explore.T.Eval(env,self.ufs())
            for v in self.values_of(goals[0]): print('   val',ev.v(v))
    t=time.time(); x=od(self,ctx,goals,kind,**k); print("decide",kind,len(goals),x,round(time.time()-t,2),flush=True); return x
explore.Runner.decide=decide
oc=solve.check
def chk(cs,tm,kind,*a,**k):
    t=time.time(); r=oc(cs,tm,kind,*a,**k); 
    if time.time()-t>.5: print("   check",kind,r[0],round(time.time()-t,2),flush=True)
    return r
solve.check=chk
oc2=explore.Runner.candidate
def cand(self,ctx,l,w):
    import traceback; traceback.print_exc(); return oc2(self,ctx,l,w)
explore.Runner.candidate=cand
r=explore.Runner(c['fn'],c['cfg'],c['name'],1,150,64).run()
print(r.incon,r.cexs,r.proved)
