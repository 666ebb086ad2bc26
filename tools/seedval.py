#!/usr/bin/env python3
"""Validates planted bugs: the patch applies, touches original lines, builds, passes the stable tests, and the demo tells the trees apart.
usage: seedval.py [ID...]   Works in /repo itself and undoes what it did."""
import subprocess, sys, os, json, re
V='/verif/seeded'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def build(): return sh('bash /opt/vp/build.sh', cwd='/repo').returncode == 0
def tests():
    sh('bash /opt/vp/test.sh /tmp/seedval.json', cwd='/repo'); o=json.load(open('/tmp/seedval.json')); return o
base=json.load(open('/opt/vp/BASELINE.json'))
def flat(x):
    if isinstance(x,dict): return [v for k in x for v in ([k] if not isinstance(x[k],(list,dict)) else flat(x[k]))]
    return list(x)
ids=sys.argv[1:] or sorted(os.listdir(V))
assert not sh('git -C /repo status --porcelain').stdout
root=sh('git -C /repo rev-list --max-parents=0 HEAD').stdout.split()[0]
build()
bad=0
for i in ids:
    d=f'{V}/{i}'; msg=[]; why=''
    r=sh(f'bash {d}/demo.sh', cwd='/repo', timeout=300)
    if r.returncode: msg.append('demo fails on the clean tree: '+(r.stdout+r.stderr)[-300:])
    # original lines
    p=open(f'{d}/patch.diff').read(); f=None; orig=0; mine=0
    for l in p.splitlines():
        if l.startswith('--- a/'): f=l[6:].split('\t')[0]; bl=[x[:9].lstrip('^') for x in sh(f'git -C /repo blame -s {f}').stdout.splitlines()]
        m=re.match(r'@@ -(\d+)',l)
        if m: n=int(m.group(1))
        elif l.startswith('-') and not l.startswith('---'): 
            if root.startswith(bl[n-1][:7]): orig+=1
            else: mine+=1
            n+=1
        elif l.startswith(' ') or l=='': n+=1
    if sh(f'git -C /repo apply {d}/patch.diff').returncode: msg.append('does not apply')
    else:
        try:
            if not build(): msg.append('does not build')
            else:
                o=tests(); 
                r=sh(f'bash {d}/demo.sh', cwd='/repo', timeout=300)
                if r.returncode==0: msg.append('demo passes with the bug')
                why=(r.stderr+r.stdout).strip().splitlines(); why=next((w for w in why if 'BROKEN' in w or 'ERROR' in w or 'Assert' in w), why[-1] if why else '')
                passed=o.get('passed',[]); failed=o.get('failed',[])
                if failed: msg.append('tests fail: %s'%failed)
        finally:
            sh('git -C /repo checkout -- .'); build()
    if not orig: msg.append('no original line changed')
    if mine: msg.append(f'{mine} of my own lines changed')
    print(i, 'OK' if not msg else 'BAD', f'orig={orig}', msg, '|', why[:120] if not msg or True else '', flush=True)
    bad+=bool(msg)
build()
sys.exit(bad)
