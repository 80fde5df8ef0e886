#!/usr/bin/env python3
"""mut.py PROP FILE OLD NEW [--count] : run PROP on a copy with OLD->NEW (first occurrence; fails if absent)"""
import sys,os,subprocess,tempfile,shutil
prop,f,old,new=sys.argv[1:5]
d=tempfile.mkdtemp(prefix='mut',dir='/tmp/mut')
try:
    shutil.copytree('/repo/pyHalo',d+'/pyHalo')
    p=os.path.join(d,f); s=open(p).read()
    assert old in s, 'absent: '+old
    n=int(os.environ.get('NTH','1'))
    i=-1
    for _ in range(n): i=s.index(old,i+1)
    s=s[:i]+new+s[i+len(old):]
    open(p,'w').write(s)
    r=subprocess.run(['/opt/venv/bin/python','-B','/verif/run.py',prop]+sys.argv[5:],env=dict(os.environ,PV_REPO=d),capture_output=True,text=True)
    out=[l[:300] for l in r.stdout.splitlines()]
    print('rc',r.returncode,'|',old.strip()[:60],'->',new.strip()[:60]); print('   '+'\n   '.join(out[-5:])); 
    if r.stderr: print(r.stderr[-500:])
finally: shutil.rmtree(d)
