#!/usr/bin/env python3
"""Runs the quick check of each planted bug's property against a copy of /repo with the bug. usage: seedrun.py [--prop P] [ID...]"""
import subprocess, sys, os, json, time, tempfile
V='/verif/seeded'; a=sys.argv[1:]; P=None
if a[:1]==['--prop']: P=a[1]; a=a[2:]
for i in a or sorted(os.listdir(V)):
    prop=P or json.load(open(f'{V}/{i}/meta.json'))['property']
    t=tempfile.mkdtemp(prefix='sr-'); 
    subprocess.run(f'git -C /repo archive HEAD | tar -x -C {t}/ && git -C {t} init -q && git -C {t} apply {V}/{i}/patch.diff',shell=True,check=True)
    s=time.time(); r=subprocess.run(['/verif/check.py',prop,'--tier','quick'],env=dict(os.environ,REPO=t),capture_output=True,text=True,cwd='/verif')
    L=r.stdout.strip().splitlines()
    v=[l for l in L if 'VIOLATION' in l]; d=[l for l in L if ' in ' in l and ': ' in l and not l.startswith(prop+':')]
    print(i,prop,'CAUGHT' if r.returncode==1 and v else f'missed rc={r.returncode}','%.0fs'%(time.time()-s),(d[:1] or L[-2:]),'' if r.returncode in(0,1) else r.stderr[-300:],flush=True)
    subprocess.run(['find',t,'-delete'])
