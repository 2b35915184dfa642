#!/usr/bin/env python3
# tools/probe.py SPEC.py [JOBS]: SPEC.py defines M=[(prop, file, old, new), ...]; each is applied to a scratch copy of
# /repo's HEAD and the quick check of `prop` is run against it (no build, no tests, no demo): prints what is caught.
import sys,os,subprocess,tempfile,shutil,concurrent.futures as cf
g={}; exec(open(sys.argv[1]).read(),g); J=int(sys.argv[2]) if len(sys.argv)>2 else 2
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def one(i):
    prop,f,o,n=g['M'][i][:4]
    W=tempfile.mkdtemp(prefix='probe-'); R=W+'/repo'; os.mkdir(R)
    try:
        subprocess.check_call('git -C '+os.environ.get('PROBE_REPO','/repo')+' archive HEAD | tar x -C '+R,shell=True)
        t=open(R+'/'+f).read()
        if t.count(o)!=1: return i,'?? %d occurrences'%t.count(o),''
        open(R+'/'+f,'w').write(t.replace(o,n))
        os.mkdir(W+'/v')
        subprocess.check_call('cp -a %s/{lib,checks,tools,run.py,checks.json,known_findings.txt} %s/v/ 2>/dev/null; mkdir -p %s/v/evidence %s/v/replays; cp %s/*.sh %s/*.json* %s/v/ 2>/dev/null; true'%(V,W,W,W,V,V,W),shell=True,executable='/bin/bash')
        e=dict(os.environ,VERIF_SEED='1',VERIF_TIER='quick',VERIF_REPO=R,VERIF_BUILD=W+'/b')
        r=subprocess.run(['python3','run.py',prop,'quick'],cwd=W+'/v',env=e,capture_output=True,text=True,timeout=1200,errors='replace')
        out=r.stdout+r.stderr
        what=[l for l in out.splitlines() if 'tag' in l.lower() or 'what' in l.lower() or 'error:' in l][:2]
        return i,{0:'MISSED',1:'caught'}.get(r.returncode,'rc=%d'%r.returncode),' | '.join(what)[:200] + (out[-300:] if r.returncode not in (0,1) else '')
    except subprocess.TimeoutExpired: return i,'timeout',''
    finally: shutil.rmtree(W,ignore_errors=True)
with cf.ThreadPoolExecutor(J) as ex:
    for i,a,b in ex.map(one,range(len(g['M']))):
        m=g['M'][i]; print('%-8s %s %s: %r -> %r  %s'%(a,m[0],m[1],m[2][:60],m[3][:60],b),flush=True)
