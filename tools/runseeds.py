#!/usr/bin/env python3
"""Runs checks against planted changes, each in a private mount namespace where a patched scratch copy stands in for /repo.
usage: runseeds.py [-j N] [-p Cxx,Cyy|all|own] [dir-of-changes] [id ...]     (development tool; no check uses it)"""
import json, os, subprocess, sys, threading, queue, time, shutil
a = sys.argv[1:]
J, P, D, ids = 2, 'own', '/verif/seeded', []
while a:
    x = a.pop(0)
    if x == '-j': J = int(a.pop(0))
    elif x == '-p': P = a.pop(0)
    elif x.startswith('/'): D = x
    else: ids.append(x)
ids = ids or sorted(os.listdir(D))
W = os.environ.get('SEEDRUN', '/tmp/seedrun')
# for changes without a property (mutate.py): checks to try, by file, until one reports a violation
MAP = [('amounts.rs', 'C15 C19'), ('clause_keyword.rs', 'C16 C19'), ('clauses.rs', 'C17 C19'), ('speech', 'C18 C19'), ('get_word_tag', 'C02 C01'), ('create_tokens', 'C02 C03 C01 C04'),
       ('ll_selection', 'C09 C10 C11 C12 C17 C15'), ('any_of', 'C08 C07'), ('x/', 'C08 C07 C09'), ('x.rs', 'C07 C08 C06'), ('display', 'C13 C06'), ('text_match', 'C14 C19'), ('ll_line.rs', 'C05 C06 C04 C02 C03 C12 C10'), ('', 'C06 C04 C05 C13')]
q = queue.Queue()
for i in ids: q.put(i)
lock = threading.Lock()
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def worker(k):
    r, v = f'{W}/{k}/repo', f'{W}/{k}/verif'
    os.makedirs(f'{W}/{k}', exist_ok=True)
    shutil.rmtree(r, ignore_errors=True)
    sh(f'git clone -q /repo {r}; cp /repo/Cargo.lock {r}/ 2>/dev/null')
    os.makedirs(v, exist_ok=True)
    sh(f'rm -f {v}/harness/src/gen.rs; cd {os.path.dirname(os.path.dirname(os.path.abspath(__file__)))} && cp -a check.py spec harness known-findings.txt tools properties.jsonl MANIFEST.json {v}/; [ -d {v}/.build ] || cp -a .build {v}/.build')
    while True:
        try: i = q.get_nowait()
        except queue.Empty: return
        m = json.load(open(f'{D}/{i}/meta.json')) if os.path.exists(f'{D}/{i}/meta.json') else {'property': '?'}
        props = [m['property']] if P == 'own' else ['C%02d' % n for n in range(1, 30)] if P == 'all' else P.split(',')
        if P == 'file':
            d = open(f'{D}/{i}/patch.diff').read()
            props = next(v for k, v in MAP if k in d.split('+++ b/')[1].split('\n')[0]).split()
        have = open(f'{v}/MANIFEST.json').read()
        props = [p for p in props if f'"{p}"' in have]
        sh(f'git -C {r} checkout -q -- .')
        o = sh(f'git -C {r} apply {D}/{i}/patch.diff')
        if o.returncode: print(i, 'DOES NOT APPLY', o.stdout); continue
        res = []
        for p in props:
            t = time.time()
            o = sh(f"cd {v} && unshare -rm bash -c 'mount --bind {r} /repo && VERIF_SEED=1 VERIF_TIER={os.environ.get('VERIF_TIER', 'quick')} python3 check.py {p}'")
            l = [x for x in o.stdout.splitlines() if 'VIOLATION' in x or 'violat' in x.lower() or 'Broken' in x or 'broken' in x]
            res.append((p, o.returncode, round(time.time() - t)))
            if o.returncode not in (0, 1) or (o.returncode == 0 and P == 'own') or (o.returncode == 1 and P not in ('own', 'file')):
                with lock: print('   ', i, p, o.returncode, o.stdout[-300 if o.returncode < 2 else -1500:].strip().replace('\n', '\n        '), flush=True)
            if P == 'file' and o.returncode == 1: break
        with lock: print(i, ' '.join(f'{p}:{c}({t}s)' for p, c, t in res), flush=True)
ts = [threading.Thread(target=worker, args=(k,)) for k in range(J)]
for t in ts: t.start()
for t in ts: t.join()
