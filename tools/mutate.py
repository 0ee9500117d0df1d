#!/usr/bin/env python3
"""Makes small syntactic changes of /repo's sources and keeps those that compile and pass the existing tests, as
OUT/<id>/patch.diff (development tool; no check uses it).
usage: mutate.py OUT [-j N]"""
import os, re, subprocess, sys, threading, queue, shutil, json
OUT = sys.argv[1]
J = int(sys.argv[sys.argv.index('-j') + 1]) if '-j' in sys.argv else 6
W = '/tmp/mutrun'
FILES = subprocess.run("cd /repo && git ls-files | grep -E 'src/.*\\.rs$' | grep -vE 'tests|^examples|demo|_archive'", shell=True, stdout=subprocess.PIPE, text=True).stdout.split()
SWAPS = [(r' \+ 1\b', ['', ' + 2']), (r' - 1\b', ['']), (r' <= ', [' < ', ' >= ']), (r' < ', [' <= ']), (r' >= ', [' > ']), (r' > ', [' >= ']), (r' == ', [' != ']), (r' != ', [' == ']),
         (r' && ', [' || ']), (r' \|\| ', [' && ']), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']), (r'\.rev\(\)', ['']), (r'\.max\(', ['.min(']), (r'\.min\(', ['.max(']),
         (r'\.first\(\)', ['.last()']), (r'\.last\(\)', ['.first()']), (r'\.next\(\)', ['.last()']), (r'\.is_empty\(\)', ['.len() == 1', '.is_empty() == false']),
         (r'\bstart_idx\b', ['end_idx']), (r'\bend_idx\b', ['start_idx']), (r'\.starts_at\b', ['.ends_at']), (r'\.ends_at\b', ['.starts_at']), (r'\brange\.0\b', ['range.1']), (r'\brange\.1\b', ['range.0']),
         (r'\.to_lowercase\(\)', ['.to_string()', '.to_uppercase()', '.to_ascii_lowercase()']), (r'\bbreak\b', ['continue']), (r'\bcontinue\b', ['break']),
         (r'\binsert_distinct\b', ['insert']), (r'\b0\b', ['1']), (r'\b1\b', ['0', '2']), (r'\b2\b', ['3']), (r"'(.)'", ["'#'"]), (r'is_alphabetic', ['is_alphanumeric', 'is_lowercase']), (r'is_whitespace', ['is_ascii_whitespace']),
         (r'is_ascii_digit\(\)', ['is_numeric()', 'is_alphanumeric()']), (r'is_numeric\(\)', ['is_ascii_digit()']), (r'\bfind_by\b', ['find_by_forwards_and_backwards']), (r'match_first_forwards', ['match_first_backwards']), (r'match_first_backwards', ['match_first_forwards']),
         (r'\.pos_starts_at', ['.pos_ends_at']), (r'\.pos_ends_at', ['.pos_starts_at']), (r'\.trim\(', ['.trim_start(', '.trim_end(']), (r'\.len\(\)', ['.chars().count()', '.len() / 2']), (r'checked_sub\(1\)', ['checked_sub(0)', 'checked_sub(2)']),
         (r'\.filter_map\(', ['.map(']), (r'\.into_iter\(\)', ['.into_iter().take(1)', '.into_iter().skip(1)', '.into_iter().rev()']), (r'\.iter\(\)', ['.iter().take(1)', '.iter().skip(1)', '.iter().rev()']), (r'\.collect\(\)', ['.take(1).collect()', '.skip(1).collect()']),
         (r'Some\((\w+)\)', ['None']), (r'\?;', ['.unwrap();']), (r'\bpush\b', ['insert_0'])]
def mutants():
    for f in FILES:
        ls = open('/repo/' + f).read().split('\n')
        for n, l in enumerate(ls):
            if '#[cfg(test)]' in l: break
            s = l.strip()
            if not s or s.startswith(('//', '#', 'use ', 'mod ', 'pub mod', 'pub use', '*')): continue
            code = l.split(' //')[0]
            for pat, reps in SWAPS:
                for m in re.finditer(pat, code):
                    for r in reps:
                        yield f, n, l[:m.start()] + r + l[m.end():]
            m = re.match(r'(\s*(?:\} else )?if )(?!let)(.*)( \{)$', code)
            if m:
                for c in (f'!({m[2]})', f'true || {m[2]}', f'false && {m[2]}'):
                    yield f, n, m[1] + c + m[3]
            if s.endswith(';') and not s.startswith(('let ', 'return', 'type ', 'const ', '}', ')', '.', 'pub', 'fn')):
                yield f, n, re.match(r'\s*', l)[0] + '{}'
            if s.startswith('.') and not s.endswith((';', '{', '(')) and s.count('(') == s.count(')'):
                yield f, n, ''
            if s.startswith('return') and s.endswith(';'):
                yield f, n, ''
q = queue.Queue()
seen = set()
for k, m in enumerate(mutants()):
    if m not in seen:
        seen.add(m)
        q.put((k, m))
print(q.qsize(), 'mutants', flush=True)
os.makedirs(OUT, exist_ok=True)
lock = threading.Lock()
stat = {'no build': 0, 'killed': 0, 'survived': 0}
def sh(c, t=120):
    try: return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
    except subprocess.TimeoutExpired: return None
def worker(w):
    r = f'{W}/{w}'
    os.makedirs(W, exist_ok=True)
    shutil.rmtree(r, ignore_errors=True)
    sh(f'git clone -q /repo {r}; cp /repo/Cargo.lock {r}/; cp -a /repo/target {r}/target', 300)
    cmd = f'cd {r} && ulimit -v 8000000; CARGO_NET_OFFLINE=true timeout 100 cargo test --offline --workspace -q -- --test-threads=2'
    while True:
        try: k, (f, n, new) = q.get_nowait()
        except queue.Empty: return
        p = f'{r}/{f}'
        ls = open('/repo/' + f).read().split('\n')
        ls[n] = new
        open(p, 'w').write('\n'.join(ls))
        b = sh(f'cd {r} && CARGO_NET_OFFLINE=true cargo check --offline --workspace -q 2>&1')
        if not b or b.returncode: what = 'no build'
        else:
            t = sh(cmd)
            what = 'survived' if t and t.returncode == 0 else 'killed'
        if what == 'survived':
            d = f'{OUT}/m{k:04d}'
            os.makedirs(d, exist_ok=True)
            open(f'{d}/patch.diff', 'w').write(sh(f'git -C {r} diff').stdout)
        sh(f'git -C {r} checkout -q -- .')
        with lock:
            stat[what] += 1
            if sum(stat.values()) % 50 == 0: print(stat, flush=True)
ts = [threading.Thread(target=worker, args=(w,)) for w in range(J)]
for t in ts: t.start()
for t in ts: t.join()
print(stat)
shutil.rmtree(W, ignore_errors=True)
