"""mk.py ID... : build seeded bug dirs, run demo on both trees and stable tests on the copy"""
import json, os, re, shutil, subprocess, sys, xml.etree.ElementTree as ET
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0,'/tmp/seedsrc')
from bugs import BUGS, PRE
from bugs3 import BUGS3
BUGS.update(BUGS3)
from bugs4 import BUGS4
BUGS.update(BUGS4)
from bugs5 import BUGS5
BUGS.update(BUGS5)
STABLE=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
ENV=dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', TZ='UTC', PROJ_NETWORK='OFF')
def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, env=dict(ENV, PYTHONPATH=cwd, **kw), capture_output=True, text=True)
def one(bid, tests=True):
    b=BUGS[bid]
    out=f'/tmp/vwork/seeded/{bid}'
    w=f'/tmp/sd/{bid}/repo'
    shutil.rmtree(f'/tmp/sd/{bid}', ignore_errors=True); os.makedirs(f'/tmp/sd/{bid}')
    shutil.copytree('/repo', w, symlinks=True)
    for e in b['edits']:
        f,old,new=e[:3]; k=e[3] if len(e)>3 else None
        p=f'{w}/bathygrid/{f}'; s=open(p).read()
        if k is None and s.count(old)!=1: return bid, f'pattern count {s.count(old)} in {f}: {old[:50]}'
        parts=s.split(old)
        k=k or 1
        open(p,'w').write(old.join(parts[:k])+new+old.join(parts[k:]))
    d=subprocess.run('git diff -- bathygrid', cwd=w, shell=True, capture_output=True, text=True).stdout
    os.makedirs(out, exist_ok=True)
    open(out+'/patch.diff','w').write(d)
    open(out+'/demo.sh','w').write('#!/bin/bash\n# run in the repository; needs demo.py beside this file\nexec env PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(out+'/demo.sh',0o755)
    open(out+'/demo.py','w').write(PRE+b['demo'].lstrip('\n'))
    json.dump({'property':b['property'],'needs':b['needs'],'what_it_breaks':b['breaks']},open(out+'/meta.json','w'),indent=1)
    a=sh(f'bash {out}/demo.sh','/repo'); m=sh(f'bash {out}/demo.sh',w)
    msg=f'demo clean rc={a.returncode} mutated rc={m.returncode}'
    if a.returncode!=0: msg+='\n CLEAN '+(a.stdout+a.stderr)[-1500:]
    if m.returncode==0: msg+='\n MUT '+(m.stdout+m.stderr)[-500:]
    else: msg+=' :: '+(m.stderr.strip().split('\n') or [''])[-1][:160]
    if tests and a.returncode==0 and m.returncode!=0:
        x=f'/tmp/sd/{bid}/r.xml'
        t=sh(f'/opt/venv/bin/python -m pytest tests -q --tb=no --show-capture=no -p no:cacheprovider -o junit_family=xunit2 --junitxml={x}', w)
        bad=[]; seen=set()
        for c in ET.parse(x).iter('testcase'):
            n=c.get('classname')+'::'+c.get('name')
            seen.add(n)
            if n in STABLE and any(k.tag in('failure','error') for k in c): bad.append(n)
        miss=[n for n in STABLE if n not in seen]
        msg+=f' | tests bad={bad} missing={len(miss)}'
    shutil.rmtree(f'/tmp/sd/{bid}', ignore_errors=True)
    return bid,msg
if __name__=='__main__':
    ids=sys.argv[1:] or list(BUGS)
    with ThreadPoolExecutor(4) as ex:
        for r in ex.map(one, ids): print(*r, flush=True)
