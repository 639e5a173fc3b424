# Bulk measurement: python3 mut.py [NAMES or property ids...]; builds each defect into the simulator from a scratch copy and runs its property's check.
import os, subprocess, sys, shutil, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from muts import M
SC=os.environ.get('MUT_DIR','/tmp/mut'); V=os.environ.get('MUT_VERIF','/verif'); LOG=os.environ.get('MUT_LOG','/tmp/mut.log')
ov=dict(a.split(':') for a in sys.argv[1:] if ':' in a); sel=[a.split(':')[0] for a in sys.argv[1:]] # NAME:Pxx runs another property's check
names=[n for n in M if not sel or n in sel or M[n][0] in sel]
os.makedirs(SC,exist_ok=True); R=SC+'/repo'; BD=SC+'/build'
if not os.path.isdir(R): shutil.copytree('/repo',R,symlinks=True,ignore=shutil.ignore_patterns('.git','fifo'))
for n in names:
    prop,edits=M[n]; orig={}; prop=ov.get(n,prop)
    try:
        for f,o,nw in edits:
            p=R+'/'+f; s=open(p,encoding='latin1').read(); orig.setdefault(p,s)
            if s.count(o)!=1: raise ValueError('%s: %d matches of %r'%(f,s.count(o),o[:60]))
            open(p,'w',encoding='latin1').write(s.replace(o,nw))
        env=dict(os.environ,NSCA_REPO=R,NSCA_BUILD=BD)
        t=time.time()
        b=subprocess.run(['bash',V+'/sim/build.sh','all' if prop in('P19','P23','P25') else 'core'],env=env,capture_output=True,text=True)
        if b.returncode: res='BUILD '+(b.stdout+b.stderr)[-300:].replace('\n',' | ')
        else:
            c=subprocess.run([BD+'/simcheck','--property',prop,'--seed',os.environ.get('SEED','1'),'--root',SC,'--evidence',SC+'/ev.json','--nomin'],capture_output=True,text=True)
            l=[x for x in c.stdout.splitlines() if x.startswith('violation found') or x.startswith('VIOLATION')]
            res=('CAUGHT ' if c.returncode==1 else 'MISSED ' if c.returncode==0 else 'RC%d '%c.returncode)+(l[0][:150] if l else '')
        res+=' %.0fs'%(time.time()-t)
    except ValueError as e: res='EDIT '+str(e)
    finally:
        for p,s in orig.items(): open(p,'w',encoding='latin1').write(s)
    line='%-28s %s %s'%(n,prop,res); print(line,flush=True); open(LOG,'a').write(line+'\n')
