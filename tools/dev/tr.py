import sys; sys.path.insert(0,'/verif')
import importlib,time
from sa.core import *
from sa.program import Program
def main():
    prog=Program()
    names=sys.argv[1:]
    for n in names:
        m,r=n.rsplit('.',1)
        mod=importlib.import_module('rules.'+m)
        rs=[getattr(mod,r)] if r!='*' else [v for k,v in vars(mod).items() if callable(v) and (getattr(v,'__module__','')=='rules.'+m) and getattr(v,'__code__',None) and v.__code__.co_varnames[:v.__code__.co_argcount]==('ctx',) and (v.__doc__ or v.__name__.startswith('sample_'))]
        t=time.time()
        print([r.__name__ for r in rs])
        ctx=run_property('X',rs,'','quick',prog)
        print(n,'viol',len(ctx.violations),'broken',len(ctx.broken),'obs',len(ctx.obligations),round(time.time()-t,2),ctx.stats())
        for b in ctx.broken: print('  BROKEN',b[0],b[1])
        for v in ctx.violations[:25]:
            print('  V',v[0],'|',v[1],'|',v[2][:400])
            if '-v' in sys.argv: print('\n'.join('      '+x for x in (v[3] or [])))
main()
