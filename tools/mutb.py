#!/usr/bin/env python3
"""mutb.py IDS [< cases]: each case is `@@ B|R name`, then FILE, old, `====`, new (more edits after `####`).
B: a bug, some rule must report it; R: a refactoring, every rule must stay quiet."""
import os, sys, subprocess, shutil
from concurrent.futures import ThreadPoolExecutor
from queue import Queue
N = 6
Q = Queue()
for i in range(N):
    Q.put(i)
ids = sys.argv[1]


def case(blk):
    head, body = blk.split('\n', 1)
    kind, name = head.split(' ', 1)
    i = Q.get()
    try:
        D, W = '/tmp/mutb/r%d' % i, '/tmp/mutb/w%d' % i
        if not os.path.isdir(D):
            shutil.copytree('/repo', D, ignore=shutil.ignore_patterns('target', '.git'), symlinks=True)
        if not os.path.isdir(W):
            os.makedirs(W)
            shutil.copytree('/verif/work/target', W + '/target', symlinks=True)
        shutil.rmtree(D + '/src')
        shutil.copytree('/repo/src', D + '/src')
        for b in body.split('\n####\n'):
            f, b = b.split('\n', 1)
            old, new = (b + '\n').split('\n====\n')
            new, old = new.rstrip('\n'), old.rstrip('\n')
            p = os.path.join(D, 'src', f)
            s = open(p).read()
            if s.count(old) < 1:
                return kind, name, 'NOT FOUND: ' + old, ''
            open(p, 'w').write(s.replace(old, new, 1))
        env = dict(os.environ, SFX_REPO=D, SFX_WORK=W)
        r = subprocess.run([sys.executable, '-B', '/verif/tools/dev.py'] + ([] if ids == '-' else ids.split(',')) + ['-v'], env=env, capture_output=True, text=True)
        out = r.stdout + r.stderr
        ls = [l[:260] for l in out.splitlines() if l.startswith('   violated') or l.startswith('   inconclusive') or 'error' in l.lower() and not l.startswith('   held')]
        bad = any(l.startswith('   violated') for l in ls)
        st = ('caught' if bad else 'MISSED') if kind == 'B' else ('FALSE ALARM' if bad else 'quiet')
        if not any(l.startswith('C') and 'held' in l for l in out.splitlines()):
            st = 'BROKEN ' + out[-600:]
        return kind, name, st, '\n'.join(ls[:4])
    finally:
        Q.put(i)


os.makedirs('/tmp/mutb', exist_ok=True)
cs = [c for c in ('\n' + sys.stdin.read()).split('\n@@ ') if c.strip()]
with ThreadPoolExecutor(N) as ex:
    for kind, name, st, det in ex.map(case, cs):
        print('%s %-45s %s' % (kind, name, st))
        if det:
            print(det)
