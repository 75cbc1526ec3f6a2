import sys, time, z3
from mir import Prog, Unsupported
from engine import *
from lstate import LState
def mk(path='/tmp/mir.json'):
    P=Prog(path); e=Eng(P); L=LState(e); e.L=L; e.lock_content=L.lock_content; e.opaque=L.helpers()
    for i in L.config_fns():
        e.contracts[i]=L.config_contract
   
    return P,e,L
def arg(e,st,t,n):
    P=e.P
    x=P.types[P.strip(t)]
    if x['k']=='adt' and x['name'].endswith('CTGuard'):
        ty=P.variants(P.strip(t))[0][2][0][1]
        from values import Nat
        e.fstack.append(('entry',0))
        g=e.lock(st,Nat('mutex',name='AuthenticatorState.locked_state',ty=e.L.ls))
        e.fstack.pop()
        v=Agg(P.strip(t),0,[g])
        if P.types[t]['k']=='ref' and P.types[t]['mut']:
            st.store[('heap','ctg')]=v
            return MutRef(('heap','ctg'))
        return v
    v=e.fresh(st,t,n)
    if x['k']=='adt' and P.strip(t)==e.L.idty:
        c=e.L.id_of(v.t); st.gr['ids']=st.gr.get('ids',())+(c,)
        if st.held: e.assume(st,c>=0,c<e.L.parts(st.store[('mutex','AuthenticatorState.locked_state')])[0])
    return v
def run(name, e=None, show=True, maxp=40):
    P=e.P
    fid=[i for i,f in enumerate(P.fns) if f['body'] and f['name'].endswith(name)][0]
    b=P.fns[fid]['body']
    st=St()
    args=[arg(e,st,b['locals'][n+1],f'a{n}') for n in range(b['argc'])]
    t=time.time()
    e.npaths=0
    res=e.exec_fn(fid,args,st)
    print(name,len(res),'paths',round(time.time()-t,2),'s solver',e.solver.calls,round(e.solver.time,2))
    return res
def short(x,n=160):
    s=repr(x); return s if len(s)<n else s[:n]+'…'
def show(res,maxp=40,pc=False):
    for st,r in res[:maxp]:
        print('--',short(r,300),'taint' if st.taint else '',sorted(st.taint)[:5] if st.taint else '')
        for ev in st.tr: print('     ',ev.k,ev.at[0].split('::')[-1],ev.at[1],{k:short(v,90) for k,v in ev.a.items() if k not in('content',)}, 'HELD' if ev.held else '')
        if pc:
            for c in st.pc: print('        ',short(c,200))
if __name__=='__main__':
    P,e,L=mk()
    import traceback
    for n in sys.argv[1:]:
        if n.startswith('-'): continue
        try:
            r=run(n,e); show(r,pc='-p' in sys.argv)
        except Unsupported as ex:
            print(n,'UNSUPPORTED',ex)
            if '-t' in sys.argv: traceback.print_exc()
