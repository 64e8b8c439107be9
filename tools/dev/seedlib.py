import os,subprocess,json,shutil,sys
def mk(id,prop,edits,needs,breaks,demo):
    w='/tmp/seedw/repo'
    if os.path.exists(w): shutil.rmtree(w)
    subprocess.run(['git','clone','-q','/repo',w],check=True)
    for f,old,new in edits:
        p=f'{w}/{f}'; s=open(p).read()
        assert s.count(old)==1,(id,f,s.count(old))
        open(p,'w').write(s.replace(old,new))
    d=f'/verif/seeded/{id}'; os.makedirs(d,exist_ok=True)
    diff=subprocess.run(['git','diff'],cwd=w,capture_output=True,text=True).stdout
    open(d+'/patch.diff','w').write(diff)
    open(d+'/demo.py','w').write(demo.lstrip('\n'))
    open(d+'/demo.sh','w').write('''#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
scratch="$(mktemp -d)"
trap 'rm -rf "$scratch"' EXIT
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 MPLBACKEND=Agg SCRATCH="$scratch"
cd "$scratch" && timeout 250 /opt/venv/bin/python "$here/demo.py"
''')
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
    for which in ('clean','patched'):
        if which=='clean': subprocess.run(['git','stash','-q'],cwd=w,check=True)
        else: subprocess.run(['git','stash','pop','-q'],cwd=w,check=True)
        r=subprocess.run(['bash',d+'/demo.sh'],cwd=w,capture_output=True,text=True)
        print(id,which,r.returncode,(r.stdout+r.stderr)[-300:].replace('\n',' | ') if (r.returncode!=0) else '')
    subprocess.run(['find',d,'-name','__pycache__','-exec','rm','-rf','{}','+'])
