#!/usr/bin/env python3
"""plant.py < spec: make a planted bug in a scratch copy, confirm it and keep it in seeded/.
spec sections, each starting with a line '=====NAME arg': ID, PROP, NEEDS, BREAKS, FILE path / OLD / NEW (repeated), DEMO."""
import json, os, re, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = '/tmp/plant'
sec = []
for l in sys.stdin.read().split('\n'):
    m = re.match(r'=====(\w+) ?(.*)$', l)
    if m:
        sec.append([m.group(1), m.group(2), []])
    else:
        sec[-1][2].append(l)
S = {k: (a + '\n'.join(b)).strip() for k, a, b in sec if k in ('ID', 'PROP', 'NEEDS', 'BREAKS')}
if not os.path.isdir(D):
    shutil.copytree('/repo', D, symlinks=True)
def sh(c, **k):
    return subprocess.run(c, shell=True, cwd=D, text=True, capture_output=True, **k)
sh('git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git clean -fdq')
orig = sh('git rev-list --max-parents=0 HEAD').stdout
env = dict(os.environ, CARGO_NET_OFFLINE='true', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_TARGET_DIR=D + '/target', CARGO_INCREMENTAL='1', CARGO_PROFILE_DEV_DEBUG='line-tables-only')
demo = '\n'.join([b for k, a, b in sec if k == 'DEMO'][0]).strip('\n') + '\n'
out = os.path.join(ROOT, 'seeded', S['ID'])
os.makedirs(out, exist_ok=True)
open(out + '/demo.sh', 'w').write(demo)
os.chmod(out + '/demo.sh', 0o755)
def build():
    r = sh('cargo build --offline -q && cargo test --offline -q 2>&1', env=env)
    return r
def rundemo():
    return subprocess.run(['timeout', '280', 'bash', out + '/demo.sh'], cwd=D, text=True, capture_output=True)
ok = True
r = build(); d = rundemo()
print('clean: build+tests', r.returncode, 'demo', d.returncode, (d.stdout + d.stderr)[-600:] if d.returncode else '')
ok &= r.returncode == 0 and d.returncode == 0
f = None
for k, a, b in sec:
    if k == 'FILE': f = a
    if k == 'OLD': old = '\n'.join(b)
    if k == 'NEW':
        new = '\n'.join(b)
        p = os.path.join(D, f); s = open(p).read()
        if s.count(old) != 1:
            print('OLD occurs', s.count(old), 'times in', f); ok = False
        open(p, 'w').write(s.replace(old, new, 1))
r = build(); d = rundemo()
print('patched: build+tests', r.returncode, (r.stdout + r.stderr)[-1500:] if r.returncode else '', 'demo', d.returncode, (d.stdout + d.stderr)[-300:])
ok &= r.returncode == 0 and d.returncode not in (0, 124)
open(out + '/patch.diff', 'w').write(sh('git diff').stdout)
# are the removed lines original ones?
bl = sh("git diff -U0 | grep -E '^@@|^--- '").stdout
cur = None
for l in bl.split('\n'):
    if l.startswith('--- a/'): cur = l[6:]
    m = re.match(r'@@ -(\d+)(?:,(\d+))?', l)
    if m:
        n = int(m.group(2) or 1)
        if n:
            x = sh('git blame -s -l -L %s,+%d HEAD -- %s' % (m.group(1), n, cur)).stdout
            for y in x.strip().split('\n'):
                h = y.split()[0].lstrip('^')
                fixes = sh('git log --format=%%H c585b92..HEAD').stdout.replace('%%', '%') if False else sh('git log --format=%H c585b92..HEAD').stdout
                print('   orig' if h not in fixes else '   MINE', y[41:120])
json.dump(dict(property=S['PROP'], needs=S['NEEDS'], what_it_breaks=S['BREAKS']), open(out + '/meta.json', 'w'), indent=1)
sh('git checkout -q -- .')
print('KEPT' if ok else 'NOT OK')
if not ok:
    shutil.rmtree(out)
    sys.exit(1)
