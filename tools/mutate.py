#!/usr/bin/env python3
"""Mutation testing of the machinery itself (a development tool, not a check): mutate.py OUT.jsonl [-j N] [-s SECS] [--files a.c,b.c] [--limit N] [--seed N] [--only ID,ID]
Makes one small change at a time in a scratch copy of /repo, keeps those that compile, change the object code and pass the
repository's own tests, and searches each with every property's scenarios until one reports a violation."""
import sys, os, re, json, subprocess, random, shutil, argparse, threading, queue, hashlib
ap = argparse.ArgumentParser(); ap.add_argument('out'); ap.add_argument('-j', type=int, default=8); ap.add_argument('-s', type=float, default=4); ap.add_argument('--files'); ap.add_argument('--limit', type=int, default=0); ap.add_argument('--seed', type=int, default=1); ap.add_argument('--only'); ap.add_argument('--lines')
A = ap.parse_args()
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); REPO = os.environ.get('REPO', '/repo'); BASE = os.environ.get('MWDIR', '/tmp/mw'); UID = 61234
FILES = A.files.split(',') if A.files else sorted('src/' + f for f in os.listdir(REPO + '/src') if f.endswith('.c')) + ['sample/enclose_io_unix.c', 'sample/enclose_io_common.h']
CF = re.search(r'^CFLAGS="(.*)"$', open(HERE + '/tools/build.sh').read(), re.M).group(1)
def sh(cmd, t=120, **k):
    try: return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=t, stdin=subprocess.DEVNULL, **k)
    except subprocess.TimeoutExpired as e: return subprocess.CompletedProcess(cmd, 124, '', '')
def live_lines(path):
    st = []; cm = False
    for i, l in enumerate(open(path, errors='replace').read().split('\n')):
        s = l.strip()
        if s.startswith('#if'): st.append('win' if re.search(r'ifdef _WIN32|ifdef __APPLE__|if defined\(_WIN32|__MINGW32__|_MSC_VER', s) else 'nowin' if 'ifndef _WIN32' in s else 'x'); continue
        if s.startswith('#else') and st: st[-1] = {'win': 'nowin', 'nowin': 'win'}.get(st[-1], 'x'); continue
        if s.startswith('#endif') and st: st.pop(); continue
        if 'win' in st: continue
        if cm: cm = '*/' not in s; continue
        if s.startswith('/*'): cm = '*/' not in s; continue
        if not s or s.startswith('//') or s.startswith('#') or s.startswith('*'): continue
        yield i, l
def muts(l):
    code = l.split('//')[0]; out = []
    def rep(a, b, new): out.append(l[:a] + new + l[b:])
    for m in re.finditer(r'(?<![<>=!\-+*/&|^%])(<=|>=|==|!=|<|>)(?![<>=])', code):
        if m.group(1) in '<>' and ('#include' in l or l[m.start() - 1:m.start()] == '-'): continue
        for n in {'<': ['<=', '>='], '<=': ['<'], '>': ['>=', '<='], '>=': ['>'], '==': ['!='], '!=': ['==']}[m.group(1)]: rep(m.start(), m.end(), n)
    for m in re.finditer(r'&&|\|\|', code): rep(m.start(), m.end(), '||' if m.group() == '&&' else '&&')
    for m in re.finditer(r'(?<=[\w)\]] )([+\-*/%])(?= [\w(&])', code): rep(m.start(), m.end(), {'+': '-', '-': '+', '*': '/', '/': '*', '%': '/'}[m.group()])
    for m in re.finditer(r'\+\+|--', code): rep(m.start(), m.end(), '--' if m.group() == '++' else '++')
    for m in re.finditer(r'\+=|-=', code): rep(m.start(), m.end(), '=')
    for m in re.finditer(r'(?<![\w.])(0|1|2)(?![\wx.])', code):
        for n in {'0': ['1'], '1': ['0', '2'], '2': ['1', '3']}[m.group(1)]: rep(m.start(), m.end(), n)
    m = re.match(r'(\s*(?:\} )?(?:else )?(?:if|while) ?\()(.*)(\)\s*\{?\s*\\?\s*)$', code)
    if m:
        if 'while' not in m.group(1): out.append(m.group(1) + '1 || ' + '(' + m.group(2) + ')' + m.group(3))
        out.append(m.group(1) + '0 && ' + '(' + m.group(2) + ')' + m.group(3))
        for t in re.split(r' (?:&&|\|\|) ', m.group(2)):
            if t != m.group(2) and t.count('(') == t.count(')'): out.append(m.group(1) + m.group(2).replace(t, '0') + m.group(3)); out.append(m.group(1) + m.group(2).replace(t, '1') + m.group(3))
    m = re.match(r'(\s*)(.*;)(\s*\\?\s*)$', code)
    if m and not re.match(r'(return|\}|struct \w+ \w+;|int \w+;|char \w+;)', m.group(2)): out.append(m.group(1) + ';' + m.group(3))
    m = re.match(r'(\s*)return (.+);(\s*\\?\s*)$', code)
    if m: out += [m.group(1) + 'return ' + v + ';' + m.group(3) for v in ('0', '-1', '1', 'SQFS_OK', 'SQFS_ERR') if v != m.group(2)]
    seen = []
    for o in out:
        if o != l and o not in seen: seen.append(o)
    return seen
allm = []
for f in FILES:
    for i, l in live_lines(REPO + '/' + f):
        for n in muts(l): allm.append((hashlib.md5(f'{f}:{i}:{n}'.encode()).hexdigest()[:8], f, i, l, n))
if A.lines: lo, hi = map(int, A.lines.split('-')); allm = [m for m in allm if lo <= m[2] + 1 <= hi]
if A.only: w = set(A.only.split(',')); allm = [m for m in allm if m[0] in w]
random.Random(A.seed).shuffle(allm)
done = set()
if os.path.exists(A.out): done = {json.loads(l)['id'] for l in open(A.out)}
if not A.only: allm = [m for m in allm if m[0] not in done]
if A.limit: allm = allm[:A.limit]
print(len(allm), 'mutants', flush=True)
PROPS = [json.loads(l)['id'] for l in open(HERE + '/properties.jsonl')]
q = queue.Queue(); [q.put(m) for m in allm]; lk = threading.Lock(); fo = open(A.out, 'a')
def objs(d, f):
    r = REPO if d is None else d + '/repo'; units = [f] if f.endswith('.c') else ['sample/enclose_io_unix.c']
    return r, units
def worker(k):
    d = f'{BASE}/{k}'; sh(f'chmod 755 {BASE}'); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    sh(f'mkdir {d}/repo && cd {REPO} && cp -a src include sample tests CMakeLists.txt {d}/repo/'); r = d + '/repo'
    sh(f'cmake -S {r} -B {d}/b -G Ninja -DCMAKE_C_COMPILER=gcc -DCMAKE_BUILD_TYPE=Debug -DCMAKE_POLICY_VERSION_MINIMUM=3.5 -DBUILD_TESTS=ON -DBUILD_SAMPLE=ON -DCMAKE_C_FLAGS=-Wno-error -Wno-dev && ninja -C {d}/b -j1', 300)
    sh(f'REPO={r} OUT={d}/o HOBJ={BASE}/h bash {HERE}/tools/build.sh all', 300)
    def comp(u, o): return sh(f'clang {CF} -I{r}/include -I{r}/sample -I{r}/src -c {r}/{u} -o {o} && objcopy --redefine-syms={BASE}/h/redefs {o} && objcopy --rename-section .data=libdata --rename-section .bss=libbss {o}')
    while True:
        try: mid, f, i, l, n = q.get_nowait()
        except queue.Empty: return
        res = dict(id=mid, file=f, line=i + 1, old=l.strip(), new=n.strip()); p = f'{r}/{f}'; orig = open(p, errors='surrogateescape').read(); ls = orig.split('\n'); ls[i] = n
        u = f if f.endswith('.c') else 'sample/enclose_io_unix.c'; b = os.path.basename(u)[:-2]; o = f'{d}/o/l/{b}.o'
        try:
            open(p, 'w', errors='surrogateescape').write('\n'.join(ls))
            shutil.copy(o, d + '/orig.o'); x = comp(u, d + '/new.o')
            if x.returncode: res['st'] = 'nocompile'; continue
            sh(f'clang -O1 -w -fno-asynchronous-unwind-tables -Wno-implicit-function-declaration -Wno-int-conversion -Wno-incompatible-function-pointer-types -I{r}/include -I{r}/sample -c {r}/{u} -o {d}/n1.o; clang -O1 -w -fno-asynchronous-unwind-tables -Wno-implicit-function-declaration -Wno-int-conversion -Wno-incompatible-function-pointer-types -I{REPO}/include -I{REPO}/sample -c {REPO}/{u} -o {d}/n0.o; for q in n0 n1; do objdump -dr {d}/$q.o | tail -n +4 > {d}/$q.d; done')
            if open(d + '/n0.d').read() == open(d + '/n1.d').read(): res['st'] = 'same'; continue
            x = sh(f'ninja -C {d}/b', 120)
            if x.returncode: res['st'] = 'nocompile'; continue
            bad = False; os.makedirs(d + '/t', exist_ok=True)
            for e in ('squash_tests', 'squash_sample'):
                if not os.path.exists(f'{d}/b/{e}'): continue
                shutil.rmtree(d + '/t'); os.makedirs(d + '/t'); os.chown(d + '/t', UID, UID)
                # the mutant may delete whatever it can reach: it runs as a user that owns nothing but its scratch directory
                if sh(f'cd {d}/t && TMPDIR={d}/t setpriv --reuid={UID} --regid={UID} --clear-groups timeout -k 1 20 {d}/b/{e}', 30).returncode: bad = True; break
            if bad: res['st'] = 'tests'; continue
            shutil.copy(d + '/new.o', o)
            x = sh(f'clang++ -no-pie -o {d}/o/sim {BASE}/h/*.o {d}/o/l/*.o -lz -lm')
            if x.returncode: res['st'] = 'nolink'; continue
            res['st'] = 'survived'; res['by'] = []
            order = PROPS[:]; random.Random(mid).shuffle(order)
            if 'enclose' in f: order = ['C17', 'C18', 'C08', 'C02'] + [c for c in order if c not in ('C17', 'C18', 'C08', 'C02')]
            shutil.rmtree(d + '/v', ignore_errors=True); os.makedirs(d + '/v')
            for c in order:
                x = sh(f'{d}/o/sim search --prop={c} --seed=1 --secs={A.s} --worker=0 --workers=1 --variants=3 --dir={d}/v --all --maxviol=1 --shrink=0', A.s + 90)
                for L in x.stdout.split('\n'):
                    if '"type":"violation"' in L:
                        try: v = json.loads(L); res['st'] = 'caught'; res['by'] = [c, v['cls'], v['op'], v['msg'][:200], round(v['time'], 2)]
                        except Exception: pass
                        break
                if res['st'] != 'caught' and x.returncode not in (0,): res['st'] = 'died'; res['by'] = [c, x.returncode, x.stdout[-300:]]
                if res['st'] != 'survived': break
        except Exception as e: res['st'] = 'error'; res['by'] = [repr(e)]
        finally:
            open(p, 'w', errors='surrogateescape').write(orig)
            if os.path.exists(d + '/orig.o'): shutil.copy(d + '/orig.o', o)
            with lk: fo.write(json.dumps(res) + '\n'); fo.flush()
os.makedirs(BASE, exist_ok=True)
r = sh(f'OUT={BASE}/x HOBJ={BASE}/h bash {HERE}/tools/build.sh harness', 300); print(r.stdout)
ts = [threading.Thread(target=worker, args=(k,)) for k in range(A.j)]; [t.start() for t in ts]; [t.join() for t in ts]
shutil.rmtree(BASE, ignore_errors=True)
