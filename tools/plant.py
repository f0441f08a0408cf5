#!/usr/bin/env python3
# plant.py: makes seeded/<id>/ from an edit and a demonstration; keeps it only when it compiles, passes the tests and the demo flips.
# Works in a scratch clone ($PL/repo with $PL/vp, a copy of /opt/vp with its paths changed).
import os,subprocess,json,shutil,sys,re
PL='/tmp/pl'; R=PL+'/repo'; SEED='/verif/seeded'
STABLE=json.load(open('/opt/vp/BASELINE.json')); STABLE=STABLE.get('stable') or STABLE.get('passed') or STABLE
DEMO='''#!/bin/bash
# Runs the interpreter on the files beside this script, in a scratch directory, and compares what it shows.
D=$(cd "$(dirname "$0")" && pwd); B=$PWD/_build/main/Debug/LegacyBasic
T=$(mktemp -d) || exit 2
trap 'find "$T" -delete' EXIT
cp -r "$D"/. "$T"/ && cd "$T" || exit 2
%s
'''
STD='''timeout 60 "$B" %s <in >out 2>err; echo "status $?" >>out
cmp -s out expect.out && cmp -s err expect.err'''
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,**k)
def reset(): sh('git checkout -q -- . && git clean -qfd',cwd=R)
def plant(id,prop,edits,needs,breaks,args='-q',inp='',files={},demo=None,timeout=120):
    d=SEED+'/'+id
    if os.path.exists(d+'/meta.json') and not os.environ.get('REDO'): return
    reset()
    sh('git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD',cwd=R)
    if sh('bash %s/vp/build.sh'%PL).returncode: print(id,'base build failed'); return
    os.makedirs(d,exist_ok=True)
    for n,t in files.items(): open(d+'/'+n,'wb').write(t.encode('latin1') if isinstance(t,str) else t)
    if demo is None:
        open(d+'/in','wb').write(inp.encode('latin1'))
        body=STD%args
    else: body=demo
    open(d+'/demo.sh','w').write(DEMO%body); os.chmod(d+'/demo.sh',0o755)
    if demo is None:
        t=sh('mktemp -d').stdout.decode().strip()
        sh('cp -r %s/. %s/'%(d,t))
        sh('timeout 60 %s/_build/main/Debug/LegacyBasic %s <in >out 2>err; echo "status $?" >>out'%(R,args),cwd=t)
        shutil.copy(t+'/out',d+'/expect.out'); shutil.copy(t+'/err',d+'/expect.err')
        sh('find %s -delete'%t)
    def bad(why):
        print('%-28s REJECTED: %s'%(id,why)); sh('find %s -delete'%d); reset()
    r=sh('bash %s/demo.sh'%d,cwd=R)
    if r.returncode: return bad('demo fails on the unchanged tree '+r.stdout.decode('latin1')[-300:]+r.stderr.decode('latin1')[-300:])
    for path,old,new in edits:
        p=R+'/'+path; s=open(p,newline='').read()
        if '\r\n' in s: old=old.replace('\n','\r\n'); new=new.replace('\n','\r\n')
        if s.count(old)!=1: return bad('edit matches %d times: %s: %s'%(s.count(old),path,old))
        open(p,'w',newline='').write(s.replace(old,new))
    patch=sh('git diff',cwd=R).stdout
    # at least one removed line must be the original repository's
    orig=0; f=None; ln=0
    for l in patch.decode('latin1').split('\n'):
        if l.startswith('--- a/'): f=l[6:].strip()
        m=re.match(r'@@ -(\d+)',l)
        if m: ln=int(m.group(1))-1; continue
        if l.startswith('-') and not l.startswith('---'):
            ln+=1
            b=sh('git blame -s -L%d,%d HEAD -- %s'%(ln,ln,f),cwd=R).stdout.decode('latin1')
            if b.startswith('^64b4bd0') or b.startswith('64b4bd0') or sh('git merge-base --is-ancestor %s 64b4bd0'%b.split()[0].lstrip('^'),cwd=R).returncode==0: orig+=1
            else: print('   mine:',l)
        elif l.startswith(' '): ln+=1
    if not orig: return bad('changes no original line')
    open(d+'/patch.diff','wb').write(patch)
    r=sh('bash %s/vp/test.sh %s/t.json'%(PL,PL))
    try: t=json.load(open(PL+'/t.json'))
    except Exception: t={'passed':[]}
    missing=[x for x in STABLE if x not in t['passed']]
    if missing: return bad('tests fail: %s %s'%(missing[:4],r.stdout.decode('latin1')[-300:] if len(missing)>20 else ''))
    try: r=sh('timeout %d bash %s/demo.sh'%(timeout,d),cwd=R)
    except Exception as e: return bad(str(e))
    if r.returncode==0: return bad('demo passes with the change')
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(d+'/meta.json','w'),indent=1)
    reset(); print('%-28s kept (%s)'%(id,prop))
