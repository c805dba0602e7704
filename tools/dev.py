import sys, time, os, argparse
sys.path.insert(0,'/verif/vpv')
import drive, ir, sx, flow
from table import CHECKS
from concurrent.futures import ThreadPoolExecutor
ap=argparse.ArgumentParser(); ap.add_argument('pid'); ap.add_argument('names'); ap.add_argument('--trace',action='store_true'); ap.add_argument('-v',action='store_true'); ap.add_argument('--pc',action='store_true'); ap.add_argument('--tb',action='store_true'); ap.add_argument('--budget',type=int,default=300); ap.add_argument('--prof',action='store_true')
a=ap.parse_args()
import atexit, shutil
D='/tmp/w/ir%d/'%os.getpid(); os.makedirs(D, exist_ok=True); atexit.register(shutil.rmtree, D, True)
for u in CHECKS[a.pid]['units']:
    src=open('/verif/contracts/'+u['contract']).read()
    ns=[n for n in a.names.split(',') if 'VP_CONTRACT(%s)'%n in src]
    if not ns: continue
    js=[('/verif/contracts/'+u['contract'],D+'h_%s.ll'%u['contract'],u.get('std','gnu++17'),tuple(u.get('cflags',())))]
    js+=[(drive.REPO+'/'+s,D+'%s_%s.ll'%(a.pid,s.replace('/','_')),'gnu++14',tuple(u.get('cflags',()))) for s in u.get('srcs',[])]
    with ThreadPoolExecutor(8) as ex: list(ex.map(lambda j: drive.compile_ir(*j), js))
    for n in ns:
        mods=[ir.Module(j[1]) for j in js]
        o=dict(u.get('opts',{})); o.update(u.get('copts',{}).get(n,{})); o['budget']=a.budget; o['loop_trace']=a.trace
        t=time.time()
        if a.tb: flow.Engine.TB=True
        if a.prof:
            import cProfile,pstats; pr=cProfile.Profile(); pr.enable()
        x,err=drive.run_contract(mods,n,u.get('cmode',{}).get(n,u.get('mode','int')),u.get('cfp',{}).get(n,u.get('fp','uf')),**o)
        if a.prof:
            pr.disable(); pstats.Stats(pr).sort_stats('cumtime').print_stats(45)
        print('%-20s paths %d obls %d proved %d queries %d loops %d %.1fs (solver %.1f lin %.1f) covers %s ended %s'%(n,x.paths,len(x.obls),sum(o.status=='proved' for o in x.obls),x.nq,x.loops_done,time.time()-t,x.tq,getattr(x,"tlin",0),x.covers,x.ended))
        if a.v:
            for o in x.obls: print('   ',o.status,o.kind,o.msg,'%.2f'%o.t,o.solver)
        if err:
            if err[0]=='failed':
                o=err[1]
                print('  FAILED',o.status,o.kind,o.msg,'|',(o.where or '')[:300])
                if o.model is not None:
                    for nm,kind,t_,ex in o.inputs:
                        if sx.isz(t_): print('     ',nm,o.model.eval(t_,model_completion=True))
                if a.pc:
                    for p in o.pc: print('  PC',str(p).replace('\n',' ')[:500])
                    print('  COND',o.cond)
            else: print('  ',err)
