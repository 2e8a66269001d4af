#!/usr/bin/env python3
"""Author planted bugs: seed.py FILE.py  (FILE defines SEEDS=[dict(id,prop,needs,breaks,edits=[(path,old,new)],demo=C++ text or (compiler flags,text))]).
Each one is applied in a scratch copy of /repo that is bind-mounted over /repo in a private mount namespace; the demo must pass
without and fail with it.  `seed.py suite ID...` runs build and the stable tests with all the named patches together."""
import sys,os,subprocess,json,runpy
RC='/tmp/rc'; SD='/verif/seeded'
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
def fresh():
    if not os.path.isdir(RC): sh('mkdir -p %s && cp -a /repo/. %s/'%(RC,RC))
    sh('git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD'%(RC,RC))
def inns(cmd,timeout=600):
    return subprocess.run(['unshare','-Urm','bash','-c','mount --bind %s /repo && cd /repo && %s'%(RC,cmd)],capture_output=True,text=True,timeout=timeout)
DEMO='''#!/bin/bash
# exit 0: the property holds for the inputs below; nonzero: it is broken
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -r "$t"' EXIT
for c in %s; do
  $c -std=c++17 %s -w -I include -o "$t/demo" "$d/demo.cpp" || { echo "$c: does not compile"; exit 2; }
  "$t/demo" || { echo "$c: property broken"; exit 1; }
done
exit 0
'''
def make(s):
    fresh(); d=os.path.join(SD,s['id']); os.makedirs(d,exist_ok=True)
    for p,old,new in s['edits']:
        f=os.path.join(RC,'include/ccmath',p); t=open(f).read()
        if t.count(old)<1 or (t.count(old)>1 and not s.get('all')): print(s['id'],'EDIT matches',t.count(old),p); return False
        open(f,'w').write(t.replace(old,new))
    open(d+'/patch.diff','w').write(sh('git -C %s diff'%RC).stdout)
    cxx=s.get('cxx','g++ clang++'); open(d+'/demo.sh','w').write(DEMO%(cxx,s.get('flags','-O1'))); os.chmod(d+'/demo.sh',0o755)
    open(d+'/demo.cpp','w').write(s['demo'])
    json.dump({'property':s['prop'],'needs':s['needs'],'what_it_breaks':s['breaks']},open(d+'/meta.json','w'),indent=1)
    b=inns('bash %s/demo.sh'%d); fresh(); a=inns('bash %s/demo.sh'%d)
    ok=a.returncode==0 and b.returncode==1
    print('%-28s %-4s clean=%d patched=%d %s'%(s['id'],s['prop'],a.returncode,b.returncode,'' if ok else 'BAD '+(a.stdout+a.stderr)[-500:]+' | '+(b.stdout+b.stderr)[-500:])); return ok
def suite(ids):
    fresh(); done=[]
    for i in ids:
        r=sh('git -C %s apply %s/%s/patch.diff'%(RC,SD,i)); 
        if r.returncode: print('does not apply together:',i)
        else: done.append(i)
    r=inns('bash /opt/vp/test.sh /tmp/rc.json',timeout=3000)
    o=json.load(open('/tmp/rc.json')); base=json.load(open('/opt/vp/BASELINE.json'))
    st=set(base['stable'] if isinstance(base,dict) else base)
    miss=sorted(st-set(o['passed'])); print('with',len(done),'patches: passed',len(o['passed']),'stable tests broken',len(miss),miss[:20])
    if not o['passed']: print(r.stdout[-3000:],r.stderr[-2000:])
    fresh()
def catch(ids):
    for i in ids:
        fresh(); sh('git -C %s apply %s/%s/patch.diff'%(RC,SD,i)); pid=json.load(open('%s/%s/meta.json'%(SD,i)))['property']
        r=subprocess.run(['/verif/check',pid],capture_output=True,text=True,env=dict(os.environ,CCM_REPO=RC))
        print('%-28s %s exit=%d %s'%(i,pid,r.returncode,' | '.join(l for l in r.stdout.splitlines()[-3:])[:300]),flush=True)
    fresh()
if __name__=='__main__':
    if sys.argv[1]=='catch': catch(sys.argv[2:] or sorted(os.listdir(SD)))
    elif sys.argv[1]=='suite': suite(sys.argv[2:])
    else:
        sel=sys.argv[2:]
        for s in runpy.run_path(sys.argv[1])['SEEDS']:
            if not sel or s['id'] in sel: make(s)
