#!/usr/bin/env python3
"""bugs.py [ID ...]: run the rules against planted bugs, each applied to a scratch copy of /repo."""
import json, os, subprocess, sys, shutil
D, W = '/tmp/bugrepo', '/tmp/bugwork'
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if not os.path.isdir(W):
    os.makedirs(W); shutil.copytree(R + '/work/target', W + '/target', symlinks=True)
env = dict(os.environ, SFX_REPO=D, SFX_WORK=W)
ids = sys.argv[1:] or sorted(os.listdir(R + '/seeded'))
n = 0
for i in ids:
    subprocess.run('rm -rf /tmp/bugrepo && mkdir /tmp/bugrepo && git -C /repo archive HEAD | tar x -C /tmp/bugrepo', shell=True, check=True)
    p = R + '/seeded/%s/' % i
    r = subprocess.run(['git', 'apply', '--directory', '', p + 'patch.diff'], cwd=D, capture_output=True, text=True)
    prop = json.load(open(p + 'meta.json'))['property']
    r = subprocess.run([sys.executable, '-B', R + '/tools/dev.py'] + ([prop] if '-p' in sys.argv else []), env=env, capture_output=True, text=True)
    out = r.stdout.split('\n')
    v = [l.split()[0] for l in out if l.startswith('C') and 'violated 0' not in l]
    ok = prop in v
    n += ok
    print('%-30s %s %s   also: %s' % (i, prop, 'caught' if ok else 'MISSED', ' '.join(x for x in v if x != prop)))
    if not ok:
        print(r.stdout[-1500:] if 'held' in r.stdout else (r.stdout + r.stderr)[-1500:])
print(n, 'of', len(ids))
