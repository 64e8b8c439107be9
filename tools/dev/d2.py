# usage: d2.py Class method [opaque,...]
import sys; sys.path.insert(0,'/verif')
from sa.core import *
from sa.program import Program
from sa.terms import show
from rules.store import tail
import time
def main():
    prog=Program()
    cn,m=sys.argv[1:3]
    opq=set(sys.argv[3].split(',')) if len(sys.argv)>3 and sys.argv[3] else set()
    opq|={f.qual for f in prog.funcs.values() if f.cls is not None and (f.cls.name=='SearchSpace' or f.qual.startswith('neps.search_spaces.hyperparameters') or f.qual.startswith('neps.search_spaces.parameter'))}
    exc='-x' not in sys.argv
    ctx=Ctx(prog,'X','quick')
    c=next(c for c in prog.classes.values() if c.name==cn)
    f=c.find_method(m)
    t=time.time()
    ps=ctx.paths(f.qual,exc=False,opaque=opq,self_term=('new',c.qual,()) if '-n' in sys.argv else ('p','self'),exact_self=c) if "-n" in sys.argv else ctx.paths(f.qual,exc=False,opaque=opq)
    print(len(ps),'paths',time.time()-t)
    for p in ps:
        print('--',p.outcome[0],show(fz(p,p.outcome[1])) if len(p.outcome)>1 else '')
        for a,b in p.facts.items(): print('     ','' if b else 'not',show(fz(p,a)) if a[0] not in('isnone','truthy','eq','ge','in','isinst','is') else a[0]+' '+', '.join(show(fz(p,x)) if isinstance(x,tuple) else str(x) for x in a[1:]))
        for e in p.events: print('    *',e[0],*[show(fz(p,y)) if isinstance(y,tuple) else y for y in e[1:-1]])
main()
