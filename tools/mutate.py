#!/usr/bin/env python3
"""Mutation campaign, to find what the checks miss (work on the checks; no check uses it).
mutate.py gen            all mutants of /repo/src -> /tmp/mut/all.jsonl
mutate.py filter N       those that build and pass the stable tests, N slots -> /tmp/mut/live.jsonl
mutate.py hunt N [IDS]   each live one against the checks (tier mini), N slots -> /tmp/mut/res.jsonl
Everything happens in copies under /tmp/mut."""
import sys, os, re, json, subprocess, shutil, threading, queue, hashlib, time
W = '/tmp/mut'; V = '/verif'; R = W + '/base'  # a copy of /repo; V = '/verif'
FILES = ['buffer', 'complete', 'context', 'editor', 'event', 'history', 'util', 'keymap/mod', 'keymap/emacs', 'keymap/vi']
OPS = [(r'==', '!='), (r'!=', '=='), (r' <= ', ' < '), (r' >= ', ' > '), (r' < ', ' <= '), (r' > ', ' >= '),
       (r' && ', ' || '), (r' \|\| ', ' && '), (r' \+ ', ' - '), (r' - ', ' + '), (r' \+= ', ' -= '), (r' -= ', ' += '),
       (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\b0\b', '1'), (r'\b1\b', '0'), (r'\b1\b', '2'),
       (r'\.min\(', '.max('), (r'\.max\(', '.min('), (r'\.rev\(\)', ''), (r'\.any\(', '.all('), (r'\.all\(', '.any('),
       (r'\bif (?!let)(!?)', None), (r'\bwhile (?!let)', None), (r'\.saturating_sub\(', '.wrapping_add('),
       (r'\bbreak;', 'continue;'), (r'\bcontinue;', 'break;'), (r'\.is_some\(\)', '.is_none()'), (r'\.is_none\(\)', '.is_some()'),
       (r'\.is_empty\(\)', '.len() == 1'), (r'starts_with', 'ends_with'), (r'\.\.=', '..'), (r'\?;', '.ok();'),
       (r'\.skip\(1\)', ''), (r'\.skip_while\(', '.take_while('), (r'\.clone\(\)', '.clone()'), (r'next_back', 'next'), (r'\.last\(', '.first('), (r'\.first\(', '.last(')]

def muts(f):
    src = open(f'{R}/src/{f}.rs').read().split('\n')
    end = next((i for i, l in enumerate(src) if 'cfg(test)' in l), len(src))
    for i, l in enumerate(src[:end]):
        t = l.strip()
        if not t or t.startswith('//') or t.startswith('#') or t.startswith('use ') or t.startswith('pub use') or t.startswith('mod '): continue
        code = l.split(' // ')[0]
        for pat, rep in OPS:
            for m in re.finditer(pat, code):
                if '"' in code and code[:m.start()].count('"') % 2: continue
                if rep is None:
                    if m.group(0).startswith('while'): new = code[:m.start()] + 'while false && ' + code[m.end():]; yield i, l, new; continue
                    # if cond -> negate
                    neg = '' if m.group(1) else '!'
                    if neg:
                        k = code.rfind(' {')
                        if k > m.end(): yield i, l, code[:m.start()] + 'if !(' + code[m.end():k] + ')' + code[k:]
                    else: yield i, l, code[:m.start()] + 'if ' + code[m.end():]
                    continue
                new = code[:m.start()] + m.expand(rep) + code[m.end():]
                if new != code: yield i, l, new
        # statement deletion
        if t.endswith(';') and not t.startswith('let ') and not t.startswith('}') and not t.startswith('pub ') and not t.startswith('fn ') and not t.startswith('.') and '=>' not in t:
            yield i, l, l[:len(l) - len(l.lstrip())] + '();'
        # match arm to nothing / arm guard dropped / arm deleted
        if '=>' in t:
            if re.search(r' if .* =>', t): yield i, l, re.sub(r' if .* =>', ' =>', l)
            m = re.match(r'(.*=>) .*,$', l)
            if m: yield i, l, m.group(1) + ' Default::default(),'
            if re.match(r'.*=> .*[^{],$', l): yield i, l, ''
        if t.startswith('| ') : yield i, l, ''
        m = re.search(r"Key::(Char|Ctrl|Alt)\('(.)'\) \| ", t)
        if m: yield i, l, l.replace(m.group(0), '', 1)
        m = re.search(r" \| Key::(Char|Ctrl|Alt)\('(.)'\)", t)
        if m: yield i, l, l.replace(m.group(0), '', 1)
        # swap direction names
        for a, b in [('move_cursor_left', 'move_cursor_right'), ('delete_until_inclusive', 'delete_until'), ('delete_until(', 'delete_until_inclusive('), ('move_to_end_of_word', 'move_word'), ('char_before', 'char_after'), ('move_cursor_to_end_of_line', 'move_cursor_to_start_of_line')]:
            if a in code: yield i, l, code.replace(a, b, 1)

def gen():
    os.makedirs(W, exist_ok=True)
    out = []; seen = set()
    for f in FILES:
        for i, old, new in muts(f):
            k = (f, i, new)
            if k in seen: continue
            seen.add(k)
            out.append(dict(f=f, i=i, old=old, new=new, id=hashlib.md5(repr(k).encode()).hexdigest()[:10]))
    open(W + '/all.jsonl', 'w').write(''.join(json.dumps(m) + '\n' for m in out))
    print(len(out))

def sh(c, t, **k):
    p = subprocess.Popen(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True, **k)
    try:
        o, _ = p.communicate(timeout=t)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        import signal
        os.killpg(p.pid, signal.SIGKILL); p.communicate()
        return 124, ''

def slot(n):
    d = f'{W}/s{n}'
    if os.path.isdir(d): return d
    os.makedirs(d)
    sh(f'cp -a {R} {d}/repo && mkdir {d}/verif && cp -a {V}/mc {V}/known-findings.txt {d}/verif/', 300)
    sh(f"sed -i 's|/repo|{d}/repo|' {d}/verif/mc/Cargo.toml; rm -rf {d}/verif/mc/target", 60)
    return d

def put(d, m):
    p = f"{d}/repo/src/{m['f']}.rs"
    s = open(f"{R}/src/{m['f']}.rs").read().split('\n')
    assert s[m['i']] == m['old'], m
    s[m['i']] = m['new']
    open(p, 'w').write('\n'.join(s))
    return p

def undo(d, m):
    shutil.copy(f"{R}/src/{m['f']}.rs", f"{d}/repo/src/{m['f']}.rs")
    os.utime(f"{d}/repo/src/{m['f']}.rs")

def pool(n, todo, work, outf):
    q = queue.Queue(); [q.put(m) for m in todo]
    lock = threading.Lock(); out = open(outf, 'a')
    def run(k):
        d = slot(k)
        while True:
            try: m = q.get_nowait()
            except queue.Empty: return
            put(d, m)
            try: r = work(d, k, m)
            finally: undo(d, m)
            if r is not None:
                with lock: out.write(json.dumps(r) + '\n'); out.flush()
    ts = [threading.Thread(target=run, args=(k + int(os.environ.get('SLOT', 0)),)) for k in range(n)]
    [t.start() for t in ts]; [t.join() for t in ts]

STABLE = None
def filt(d, k, m):
    env = dict(os.environ, CARGO_NET_OFFLINE='true', RUSTUP_TOOLCHAIN='stable', CARGO_INCREMENTAL='1', CARGO_TARGET_DIR=d + '/tt', RUSTFLAGS='-Awarnings', TMPDIR=d)
    rc, o = sh(f'cd {d}/repo && cargo test --offline --lib -q -- --test-threads 4', 60, env=env)
    return dict(m, ok=rc == 0, rc=rc)

def done(f, key='id'):
    return {json.loads(l)['id'] for l in open(f)} if os.path.exists(f) else set()

def cleanup_note(): pass

EDIT = 'C25 C24 C26 C02 C05 C03 C04 C07 C01 C13 C20 C10 C09 C11 C08 C12 C23 C29 C19 C27 C28'
ORDER = {'keymap/vi': 'C03 C04 C05 C07 C23 C01 C13 C20 C08 C09 C10 C11 C12 C29 C19 C27', 'keymap/emacs': 'C02 C24 C07 C20 C13 C01 C25 C09 C10 C08 C11 C12 C29 C19 C26 C27',
 'editor': EDIT, 'keymap/mod': EDIT, 'event': EDIT, 'context': 'C20 C29 C19 C26 C12 C27 C23 C02 C03', 'complete': 'C14 C13', 'util': 'C12 C26 C13 C23 C02 C27',
 'buffer': 'C22 C06 C21 C25 C02 C05 C07 C04 C03 C13 C24 C12 C26 C11 C10 C09 C08 C15 C16', 'history': 'C15 C16 C18 C09 C10 C11 C08 C24 C28 C17 C25'}

def hunt(ids):
    def w(d, k, m):
        env = dict(os.environ, CARGO_NET_OFFLINE='true', RUSTUP_TOOLCHAIN='stable', CARGO_TARGET_DIR=d + '/ht', RUSTFLAGS='-Awarnings', CARGO_INCREMENTAL='1', CARGO_PROFILE_RELEASE_OPT_LEVEL='1', CARGO_PROFILE_RELEASE_CODEGEN_UNITS='64', VERIF_DIR=d + '/verif', MC_CAP_S=os.environ.get('CAP', '40'))
        os.makedirs(d + '/verif/evidence', exist_ok=True)
        rc, o = sh(f'cd {d}/verif && cargo build --release --offline --manifest-path mc/Cargo.toml', 600, env=env)
        if rc: return dict(m, res='nobuild', out=o[-400:])
        t = time.time()
        order = [i for i in ORDER[m['f']].split() if not ids or i in ids]
        for i in order:
            rc, o = sh(f'taskset -c {",".join(str(c) for c in range(k * PER % 8, k * PER % 8 + PER))} {d}/ht/release/mc {i} {TIER}', 300, env=env)
            if rc == 1 and 'VIOLATION' in o:
                return dict(m, res='caught', by=i, t=round(time.time() - t))
            if rc: return dict(m, res='broke', by=i, rc=rc, out=o[-300:], t=round(time.time() - t))
        return dict(m, res='SURVIVED', t=round(time.time() - t))
    return w

if __name__ == '__main__':
    cmd = sys.argv[1]
    RES = os.environ.get('RES', 'res.jsonl'); ONLY = os.environ.get('ONLY')
    TIER = os.environ.get('TIER', 'mini')
    if cmd == 'gen': gen()
    elif cmd == 'filter':
        n = int(sys.argv[2]); dn = done(W + '/filt.jsonl')
        pool(n, [m for m in map(json.loads, open(W + '/all.jsonl')) if m['id'] not in dn], filt, W + '/filt.jsonl')
    elif cmd == 'hunt':
        n = int(sys.argv[2]); PER = 8 // n
        ids = sys.argv[3].split(',') if len(sys.argv) > 3 else []
        dn = done(W + '/' + RES)
        ms = [m for m in map(json.loads, open(W + '/filt.jsonl')) if m['ok'] and m['id'] not in dn]
        if ONLY: keep = {json.loads(l)['id'] for l in open(W + '/' + ONLY) if json.loads(l)['res'] != 'caught'}; ms = [m for m in ms if m['id'] in keep]
        if os.environ.get('IDS'): ms = [m for m in map(json.loads, open(W + '/filt.jsonl')) if m['id'] in os.environ['IDS'].split()]
        import random; random.Random(3).shuffle(ms)
        pool(n, ms, hunt(ids), W + '/' + RES)
