#!/usr/bin/env python3
"""Planted bugs: seed.py make ID... | verify ID... | hunt ID... [tier]   (definitions in seeds_def.py)
make   writes seeded/ID (patch against /repo's HEAD; every removed line must be an original one)
verify in a scratch copy: builds, stable tests pass with the patch, demo 0 without and 1 with it
hunt   applies it to /repo, runs the property's check (expects exit 1 and a VIOLATION line), undoes it"""
import sys, os, subprocess, shutil, json, tempfile, re, time
V = '/verif'; R = '/repo'
sys.path.insert(0, V + '/tools')
from seeds_def import SEEDS
BASE = '5977e04'

def sh(c, **k):
    return subprocess.run(c, shell=True, text=True, capture_output=True, **k)

def make(i):
    s = SEEDS[i]
    d = f'{V}/seeded/{i}'
    w = tempfile.mkdtemp(prefix='seed.', dir='/tmp')
    try:
        sh(f'git -C {R} worktree prune')
        assert sh(f'git -C {R} archive HEAD | tar -x -C {w}').returncode == 0
        sh(f'cd {w} && git init -q && git add -A && git -c user.name=x -c user.email=x commit -qm x')
        orig = {}
        for f, old, new in s['edits']:
            t = open(f'{w}/{f}').read()
            assert t.count(old) == 1, (i, f, t.count(old), old)
            open(f'{w}/{f}', 'w').write(t.replace(old, new))
        p = sh(f'git -C {w} diff').stdout
        assert p
        # removed lines must be original
        f = None; bad = []; removed = 0
        for l in p.splitlines():
            m = re.match(r'--- a/(.*)', l)
            if m:
                f = m.group(1)
                b = sh(f'git -C {R} blame -s HEAD -- {f}').stdout.splitlines()
                orig[f] = [x.startswith('^') or x.startswith(BASE) for x in b]
                continue
            m = re.match(r'@@ -(\d+)', l)
            if m: n = int(m.group(1)); continue
            if f is None: continue
            if l.startswith('-') and not l.startswith('---'):
                removed += 1
                if not orig[f][n-1]: bad.append((f, n, l))
                n += 1
            elif l.startswith(' '): n += 1
        if bad: print(i, 'NOT ORIGINAL', bad)
        if not removed: print(i, 'NOTHING REMOVED')
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(p)
        shutil.copy(V + '/tools/seedkit/kit.rs', d)
        shutil.copy(V + '/tools/seedkit/demo.sh', d)
        os.chmod(d + '/demo.sh', 0o755)
        open(d + '/main.rs', 'w').write('mod kit;\n#[allow(unused_imports)]\nuse kit::*;\n#[allow(unused_imports)]\nuse liner::*;\n\nfn main() {\n' + s['demo'].strip('\n') + '\n}\n')
        json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
        return not bad
    finally:
        shutil.rmtree(w)

def tests(w):
    o = tempfile.mktemp(prefix='out.', dir='/tmp')
    base = json.load(open('/opt/vp/BASELINE.json'))
    b = base.get('stable') or base.get('passed') or list(base)
    r = sh(f'sed "s#/repo#{w}#g" /opt/vp/test.sh > {o}.sh; bash {o}.sh {o}', cwd=w)
    try:
        p = set(json.load(open(o))['passed'])
    except Exception as e:
        print(r.stdout[-2000:], r.stderr[-2000:]); return ['?']
    finally:
        for x in (o, o + '.sh'):
            if os.path.exists(x): os.remove(x)
    return sorted(set(b) - p)

def verify(i):
    d = f'{V}/seeded/{i}'
    # in place: the test driver works on /repo
    if sh(f'git -C {R} status --porcelain').stdout: sys.exit('dirty repo')
    r = sh(f'bash {d}/demo.sh', cwd=R)
    if r.returncode: print(i, 'demo fails on the clean tree', r.stdout, r.stderr); return False
    assert sh(f'git -C {R} apply {d}/patch.diff').returncode == 0
    try:
        miss = tests(R)
        if miss: print(i, 'tests fail:', miss[:5]); return False
        r = sh(f'bash {d}/demo.sh', cwd=R)
        if r.returncode == 0 or r.returncode == 3:
            print(i, 'demo:', r.returncode, r.stdout, r.stderr); return False
        print(i, 'ok:', r.stdout.strip()[-200:], r.stderr.strip()[-300:])
        return True
    finally:
        sh(f'git -C {R} checkout -- .')

def hunt(i, tier='quick'):
    d = f'{V}/seeded/{i}'
    p = json.load(open(d + '/meta.json'))['property']
    if sh(f'git -C {R} status --porcelain').stdout: sys.exit('dirty repo')
    assert sh(f'git -C {R} apply {d}/patch.diff').returncode == 0
    try:
        t = time.time()
        r = sh(f'{V}/check.sh {p} {tier}')
        v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        c = 'CAUGHT' if r.returncode == 1 and v else 'MISSED'
        print(i, p, c, r.returncode, f'{time.time()-t:.0f}s', (r.stdout.strip().splitlines() or [''])[-1][:300] if c == 'MISSED' else '')
        if c == 'CAUGHT':
            print('    ', ' / '.join(l for l in r.stdout.splitlines() if not l.startswith('VIOLATION'))[-400:])
        return c == 'CAUGHT'
    finally:
        sh(f'git -C {R} checkout -- .')

cmd, *ids = sys.argv[1:]
if ids == ['all']: ids = list(SEEDS)
for i in ids:
    if cmd == 'make': make(i)
    elif cmd == 'verify': verify(i)
    elif cmd == 'hunt': hunt(i)
    elif cmd == 'full':
        if make(i) and verify(i): hunt(i)
    sys.stdout.flush()
