import sys
from mir import Prog
def place(p):
    s=f'_{p[0]}'
    for x in p[1]:
        if x=='*': s=f'(*{s})'
        elif x[0]=='f': s+=f'.{x[1]}'
        elif x[0]=='d': s=f'({s} as v{x[1]})'
        elif x[0]=='i': s+=f'[_{x[1]}]'
        else: s+=str(x)
    return s
def op(P,o):
    if o[0]=='cp': return place(o[1])
    if o[0]=='mv': return 'move '+place(o[1])
    if o[0]=='k':
        c=o[2]
        if c.get('k')=='fn': return 'fn:'+P.fns[c['fn']]['name'] if 'fn' in c else 'fn'
        return f"const {c.get('v',c)!r}:{P.tname(o[1])}" if c['k'] in('int','bool','str','bytes','ref') else f"const {c['k']}:{P.tname(o[1])}"
    return str(o)
def rv(P,r):
    k=r[0]
    if k=='use': return op(P,r[1])
    if k=='ref': return ['&','&mut ','&raw '][r[2]]+place(r[1])
    if k in('bin','chk'): return f'{k}.{r[1]}({op(P,r[2])}, {op(P,r[3])})'
    if k=='un': return f'{r[1]}({op(P,r[2])})'
    if k in('disc','len'): return f'{k}({place(r[1])})'
    if k=='cast': return f'{op(P,r[2])} as[{r[1]}] {P.tname(r[3])}'
    if k=='agg': return f'{r[1]} {P.tname(r[2]) if isinstance(r[2],int) else r[2]}.v{r[3]}({", ".join(op(P,o) for o in r[4])})'
    return str(r)
def show(P,i):
    f=P.fns[i]; b=f['body']
    print(f"fn #{i} {f['name']} [{f['kind']}]")
    if not b: return
    print('  argc',b['argc'],'dbg',[(n,place(p) if isinstance(p,list) else p) for n,p in b['dbg']])
    for n,t in enumerate(b['locals']): print(f'   let _{n}: {P.tname(t)}')
    for n,bl in enumerate(b['blocks']):
        print(f'  bb{n}:')
        for l,s in bl['s']:
            if s[0]=='=': print(f'    {place(s[1])} = {rv(P,s[2])}')
            else: print('   ',s)
        t=bl['t']
        if t[0]=='call':
            c=t[1]; nm=P.fns[c[1]]['name']+f'#{c[1]}' if c[0]=='fn' else str(c)
            print(f"    {place(t[3])} = {nm}({', '.join(op(P,o) for o in t[2])}) -> {t[4]}   // l{bl['l']}")
        elif t[0]=='sw': print(f'    switch {op(P,t[1])} {t[2]} else {t[3]}')
        elif t[0]=='drop': print(f'    drop {place(t[1])} -> {t[2]}')
        elif t[0]=='assert': print(f'    assert {op(P,t[1])}=={t[2]} {t[3]} -> {t[4]}')
        else: print('   ',t)
if __name__=='__main__':
    P=Prog(sys.argv[1])
    for i,f in enumerate(P.fns):
        if sys.argv[2] in f['name'] and f['body']: show(P,i)
