"""usage: mut.py muts.py  (muts.py defines MUTS=[(name, file, old, new, 'mod.rule mod.rule', expect)])"""
import sys; sys.path.insert(0,'/verif')
import importlib,shutil,os,time
from sa.core import *
from sa.program import Program
R='/tmp/mrepo'
def rules(spec):
    out=[]
    for n in spec.split():
        m,r=n.rsplit('.',1)
        mod=importlib.import_module('rules.'+m)
        out+= [getattr(mod,r)] if r!='*' else [v for k,v in vars(mod).items() if callable(v) and (getattr(v,'__module__','')=='rules.'+m) and getattr(v,'__code__',None) and v.__code__.co_varnames[:v.__code__.co_argcount]==('ctx',) and v.__doc__]
    return out
def main():
    ns={}
    exec(open(sys.argv[1]).read(),ns)
    flt=[a for a in sys.argv[2:] if a!='-v'] 
    for (name,f,old,new,spec,expect) in ns['MUTS']:
        if flt and not any(x in name for x in flt): continue
        shutil.rmtree(R,ignore_errors=True); shutil.copytree(os.environ.get('BASE','/repo')+'/neps',R+'/neps',ignore=shutil.ignore_patterns('__pycache__'))
        edits=[(f,old,new)] if isinstance(f,str) else f
        bad=False
        for f,o,n in edits:
            p=os.path.join(R,f); s=open(p).read()
            if o not in s: print('!!',name,'pattern not found'); bad=True;break
            s=s.replace(o,n,1); open(p,'w').write(s)
        if bad: continue
        compile(s,p,'exec')
        t=time.time()
        ctx=run_property('X',rules(spec),'','quick',Program(repo=R))
        got='V' if ctx.violations else ('B' if ctx.broken else '-')
        ok='ok ' if got==expect else 'XX '
        print(ok,name,'expected',expect,'got',got,f'{time.time()-t:.1f}s', sorted({v[0] for v in ctx.violations}) , [b[:1]+(b[1].strip().splitlines()[-1][:150],) for b in ctx.broken][:2], (ctx.violations[0][1]+': '+ctx.violations[0][2])[:200] if ctx.violations and (got!=expect or '-v' in sys.argv) else '')
main()
