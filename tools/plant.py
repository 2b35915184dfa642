#!/usr/bin/env python3
# plant.py < spec (python): defines id, prop, needs, breaks, edits=[(file, old, new)], demo (C++ text)
import sys,os,subprocess,json,difflib
g={}
exec(sys.stdin.read(),g)
R=os.environ.get('PLANT_REPO','/repo')
D=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'seeded',g['id']); os.makedirs(D,exist_ok=True)
files={}
for f,o,n in g['edits']:
    t=files.setdefault(f,[open(R+'/'+f).read()]*2)
    assert t[1].count(o)==1,(f,o,t[1].count(o))
    files[f]=[t[0],t[1].replace(o,n)]
out=''
for f,(a,b) in files.items():
    out+='diff --git a/%s b/%s\n'%(f,f)+''.join(difflib.unified_diff(a.splitlines(True),b.splitlines(True),'a/'+f,'b/'+f))
open(D+'/patch.diff','w').write(out)
subprocess.check_call(['git','-C',R,'apply','--check',D+'/patch.diff'])
json.dump({'property':g['prop'],'needs':g['needs'],'what_it_breaks':g['breaks']},open(D+'/meta.json','w'),indent=1)
open(D+'/demo.cc','w').write(g['demo'])
open(D+'/demo.sh','w').write('''#!/bin/bash
# Run with cwd at the root of the repository: exits 0 if the property holds in the scenario of demo.cc.
H=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
ccache_off=1
g++ -std=c++17 -O0 -g0 -w -DCURRENT_CI %s -I "$PWD" -o "$T/demo" "$H/demo.cc" -lpthread -ldl > "$T/log" 2>&1 || { head -50 "$T/log"; exit 2; }
cd "$T" && timeout %d ./demo
'''%(g.get('flags',''),g.get('timeout',60)))
print('planted',g['id'])
