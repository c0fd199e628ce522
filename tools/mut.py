#!/usr/bin/env python3
"""mut.py IDS FILE <<< 'old\n====\nnew[\n####\nFILE2\nold\n====\nnew]': apply text replacements to a scratch copy and run rules on it."""
import os, sys, subprocess, shutil
D, W = '/tmp/mutrepo', '/tmp/mutwork'
if not os.path.isdir(D):
    shutil.copytree('/repo', D, ignore=shutil.ignore_patterns('target'), symlinks=True)
if not os.path.isdir(W):
    os.makedirs(W); shutil.copytree('/verif/work/target', W + '/target', symlinks=True)
subprocess.run('rm -rf /tmp/mutrepo/src && cp -a /repo/src /tmp/mutrepo/src', shell=True, check=True)
ids, f = sys.argv[1], sys.argv[2]
txt = sys.stdin.read()
for blk in txt.split('\n####\n'):
    if blk is not txt.split('\n####\n')[0]:
        f, blk = blk.split('\n', 1)
    old, new = blk.split('\n====\n')
    new = new.rstrip('\n'); old = old.rstrip('\n')
    p = os.path.join(D, 'src', f)
    s = open(p).read()
    if s.count(old) < 1:
        print('NOT FOUND:', old); sys.exit(9)
    s = s.replace(old, new, 1)
    open(p, 'w').write(s)
env = dict(os.environ, SFX_REPO=D, SFX_WORK=W)
sys.exit(subprocess.run([sys.executable, '-B', '/verif/tools/dev.py'] + ([] if ids == '-' else ids.split(',')) + sys.argv[3:], env=env).returncode)
