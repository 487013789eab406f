import sys
from prog import Prog
def show(n, tu, ind=0, out=None):
    pad='  '*ind
    if isinstance(n, dict):
        k=n.get('k')
        h=[str(k)]
        for a,v in n.items():
            if a in('k','l'): continue
            if a=='t': h.append('t='+tu.types[v].s[:60]); continue
            if a in('fn','ctor') and isinstance(v,int): h.append('fn='+tu.fns[v].qn); continue
            if a=='ft' : h.append('ft='+(tu.types[v].s[:30] if isinstance(v,int) else str(v))); continue
            if not isinstance(v,(dict,list)): h.append('%s=%s'%(a,v))
        print(pad+' '.join(h))
        for a,v in n.items():
            if isinstance(v,(dict,list)) and v:
                print(pad+'  .'+a); show(v,tu,ind+2)
    elif isinstance(n,list):
        for x in n: show(x,tu,ind)
    else: print(pad+str(n))
if __name__=='__main__':
    p=Prog()
    for f in p.bodies(pred=lambda f: sys.argv[1] in f.qn)[:int(sys.argv[2]) if len(sys.argv)>2 else 1]:
        print(f.key, f.qn, 'ps',f.ps); 
        if f.inits: show(f.inits,f.tu)
        show(f.body,f.tu)
