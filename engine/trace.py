"""Debugging aid: the paths of a function, with all their events.
  trace.py FACTS SPATH [-o opaque,paths] [-n N] [-d (show drops)] [-c (cancel)] [-f (facts)]"""
import argparse, sys, time
import absint, facts
from absint import *
ap=argparse.ArgumentParser(); ap.add_argument('facts'); ap.add_argument('path'); ap.add_argument('-o',default=''); ap.add_argument('-n',type=int,default=8)
ap.add_argument('-d',action='store_true'); ap.add_argument('-c',action='store_true'); ap.add_argument('-f',action='store_true'); ap.add_argument('-p',action='store_true')
ap.add_argument('-x',default=''); ap.add_argument('-s',default=''); ap.add_argument('-k',default='')
A=ap.parse_args()
segs=[]
def main():
    p=facts.Program(A.facts)
    if '|' in A.path: b=p.impl_method(*A.path.split('|'))
    else: b=[b for b in p.bodies.values() if b.spath==A.path][0]
    opq=[x for x in A.o.split(',') if x]
    def want(ev):
        if ev.kind in('enter',): return None
        if ev.kind=='drop' and not A.d: return None
        if A.x and A.x in ev.path: return None
        if A.k and not __import__('re').search(A.k, ev.kind+' '+ev.path): return None
        if A.s and A.s in ev.path and ev.kind in('call','await','opaque'): segs.append(ev.st.mon) if len(segs)<3000 else 0; ev.st.mon=()
        return ev.kind+' '+ev.path.split('::',1)[-1]
    rule=TraceRule(want,opq)
    I=Interp(p,rule,cancel=A.c) if A.c else Interp(p,rule)
    if A.p:
        import cProfile,pstats; pr=cProfile.Profile(); pr.enable()
    t0=time.time()
    args=tuple(mk('param',b.locals[i+1][1] if len(b.locals[i+1])>1 else 'a%d'%i) for i in range(b.argc))
    outs=I.run(b,args,St(mon=()),I.ctx(None,b,-1,b.id))
    res=[]
    for o in outs:
        if o.kind=='ret' and o.val.tag=='agg' and (o.val.a[0].startswith('coroutine')):
            c=Call(I,b,0,{"s":b.raw["span"],"k":"call","at":[]},I.ctx(None,b,-1,b.id),999999,None,False)
            res+=I.run_future(c,o.st,o.val)
        else: res.append(o)
    if A.p: pr.disable(); pstats.Stats(pr).sort_stats('cumtime').print_stats(18)
    print(len(res),'outcomes',I.nstates,'states',round(time.time()-t0,2),'s')
    print(len(segs),len(set(segs)),'segments')
    for o in list(dict.fromkeys(segs))[:A.n]:
        print('---- seg')
        for e in o: print('    ',e[0],show(e[1],3),'@',e[3].split('/')[-1])
    for o in res[:A.n]:
        print('----',o.kind,show(o.val))
        for e in o.st.mon: print('    ',e[0],show(e[1],3),'@',e[3].split('/')[-1])
        if A.f:
            for n,f in o.st.facts.items(): print('      fact',show(n,2),f)
run_in_thread(main)
