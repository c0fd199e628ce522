#!/usr/bin/env python3
"""Development: run every rule on a tree (SFX_REPO) with one dump; -v lists obligations."""
import os, sys, time, importlib, glob
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.setrecursionlimit(20000)
from sfx import base, engine, runner
v = '-v' in sys.argv
ids = [a.upper() for a in sys.argv[1:] if a[0] in 'cC' and len(a) == 3]
if '--mir' in sys.argv:
    mir, log = sys.argv[sys.argv.index('--mir') + 1], ''
else:
    mir, log = runner.dump()
if mir is None:
    print('DOES NOT COMPILE', log[-1500:]); sys.exit(3)
prog = engine.Program(mir)
ana = base.Ana(prog)
for f in sorted(glob.glob(ROOT + '/sfx/rules/c*.py')):
    pid = os.path.basename(f)[:-3].upper()
    if ids and pid not in ids:
        continue
    mod = importlib.import_module('sfx.rules.' + pid.lower())
    R = base.Report(pid); R.tier = 'quick'
    t = time.time()
    mod.run(ana, R)
    c = R.counts()
    print('%s held %d inconclusive %d violated %d (%.1fs)' % (pid, c['held'], c['inconclusive'], c['violated'], time.time() - t))
    seen = {}
    for o in R.obl:
        if v or o[1] != 'held':
            seen[o[:4]] = seen.get(o[:4], 0) + 1
    for o, n in seen.items():
        print('   %-12s %-18s %s x%d %s' % (o[1], o[0], o[2], n, o[3][:400]))
    if v:
        for o in R.obl:
            if o[1] == 'violated' and len(o) > 4 and o[4]:
                print('      PART', o[4][:8])
