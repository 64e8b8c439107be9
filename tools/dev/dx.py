import sys; sys.path.insert(0,'/verif')
from sa.core import *
from sa.program import Program
p=Program()
def dump(cls,meth,lim=12,exact=True,**kw):
    c=p.cls(cls); ctx=Ctx(p,'X','quick')
    f=c.find_method(meth)
    if exact: kw['exact_self']=c
    r=ctx.paths(f,**kw)
    print('==',cls,meth,len(r))
    for x in r[:lim]:
        print('--',x.outcome[0],show(fz(x,x.outcome[1]))[:600] if len(x.outcome)>1 else '')
        for a,v in x.facts.items(): print('     ',lit((a,v))[:200])
        for e in x.events: print('    *',e[0],*[show(fz(x,y))[:250] if isinstance(y,tuple) else y for y in e[1:-1]])
if __name__=='__main__':
    OP=frozenset(x for x in p.funcs if '.Domain.' in x)
    dump(sys.argv[1],sys.argv[2],exc=False,opaque=OP)
