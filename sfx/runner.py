"""check <ID>: dump the MIR of /repo's working tree, run the property's rules, write evidence."""
import importlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get('SFX_REPO', '/repo')
DRIVER = os.path.join(ROOT, 'driver', 'target', 'debug', 'mirdump')
WORK = os.environ.get('SFX_WORK', os.path.join(ROOT, 'work'))


def sh(cmd, env=None, cwd=None):
    return subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def sysroot():
    return subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], stdout=subprocess.PIPE, text=True).stdout.strip()


def build_driver():
    src = os.path.join(ROOT, 'driver', 'src', 'main.rs')
    if os.path.exists(DRIVER) and os.path.getmtime(DRIVER) >= os.path.getmtime(src):
        return
    env = dict(os.environ)
    for k in ('RUSTC_WORKSPACE_WRAPPER', 'RUSTC_WRAPPER', 'RUSTFLAGS', 'CARGO_TARGET_DIR'):
        env.pop(k, None)
    r = sh(['cargo', '+nightly', 'build', '--offline'], env=env, cwd=os.path.join(ROOT, 'driver'))
    if r.returncode != 0 and not os.path.exists(DRIVER):
        raise SystemExit('cannot build the MIR dumper:\n' + r.stdout[-3000:])


def dump():
    """-> path of the MIR of the current tree, or None when it does not compile."""
    os.makedirs(WORK, exist_ok=True)
    out = os.path.join(WORK, 'mir.json')
    tgt = os.path.join(WORK, 'target')
    env = dict(os.environ)
    env.pop('RUSTFLAGS', None)
    env.update(LD_LIBRARY_PATH=sysroot() + '/lib', RUSTC_WORKSPACE_WRAPPER=DRIVER, SFX_MIR_OUT=out,
               SFX_CRATE='silverfox', CARGO_TARGET_DIR=tgt, CARGO_INCREMENTAL='0')
    log = ''
    for attempt in range(2):
        if attempt:
            shutil.rmtree(tgt, ignore_errors=True)
        fp = os.path.join(tgt, 'debug', '.fingerprint')
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d.startswith('silverfox-'):
                    shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
        shutil.rmtree(os.path.join(tgt, 'debug', 'build', 'silverfox'), ignore_errors=True)
        shutil.rmtree(os.path.join(tgt, 'debug', 'incremental'), ignore_errors=True)
        if os.path.exists(out):
            os.remove(out)
        r = sh(['cargo', '+nightly', 'check', '--offline', '--bin', 'silverfox'], env=env, cwd=REPO)
        log = r.stdout
        if os.path.exists(out):
            return out, log
    return None, log


def known():
    p = os.path.join(ROOT, 'known-findings.txt')
    out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\w+) rule=(\S+) match=(.*)$', l.strip())
            if m:
                out.append(m.groups())
    return out


def main(argv):
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER') or ('thorough' if 'thorough' in argv[1:] else 'quick')
    if 'thorough' in argv[1:]:
        tier = 'thorough'
    t0 = time.time()
    sys.path.insert(0, ROOT)
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    from sfx import base, engine
    mod = importlib.import_module('sfx.rules.' + pid.lower())
    R = base.Report(pid)
    R.tier = tier
    ana = None
    if '--mir' in argv:
        mir, log = argv[argv.index('--mir') + 1], ''
    else:
        build_driver()
        mir, log = dump()
    if mir is None:
        R.unk('build', REPO, 'the tree does not compile: ' + log[-600:])
    else:
        prog = engine.Program(mir)
        ana = base.Ana(prog)
        base.FACTOR[0] = 10 if tier == 'thorough' else 1

        class Late(Exception):
            pass

        def late(*a):
            raise Late('out of time')
        signal.signal(signal.SIGALRM, late)
        signal.alarm(700)
        try:
            mod.run(ana, R)
        except Exception as e:      # whatever the rules cannot cope with is not an alarm
            R.unk('analysis', '-', '%s: %s' % (type(e).__name__, e))
        finally:
            signal.alarm(0)
    c = R.counts()
    viol, kn = [], []
    for o in R.obl:
        if o[1] != 'violated':
            continue
        hit = None
        for kp, kr, km in known():
            if kp == pid and kr == o[0] and km in o[3]:
                hit = km
        (kn if hit else viol).append(o)
    ev = {
        'property': pid, 'level': 'other', 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED') or 1),
        'wall_s': round(time.time() - t0, 3), 'violations': len(viol),
        'assumptions': list(getattr(mod, 'ASSUME', [])) + [
            'library functions behave as modelled in sfx/models.py',
            'floating point amounts are finite and their arithmetic is treated as exact',
        ],
        'coverage': {
            'explanation': mod.EXPLAIN.strip() if hasattr(mod, 'EXPLAIN') else (mod.__doc__ or '').strip(),
            'evidence_kind': 'static analysis of the MIR of the working tree; nothing was executed',
            'functions_in_program': len(ana.p.local) if ana else 0,
            'functions_analysed': len(ana.fns) if ana else 0,
            'partitions_examined': ana.nparts if ana else 0,
            'obligations': len(R.obl), 'obligations_held': c['held'],
            'obligations_violated': c['violated'], 'obligations_inconclusive': c['inconclusive'],
            'functions': sorted({ana.p.insts[i]['name'].replace('silverfox::', '') for i in ana.fns if ana.p.insts[i]['local']})[:200] if ana else [],
            'samples': [{'rule': o[0], 'status': o[1], 'where': o[2], 'what': o[3][:400]} for o in R.obl[:60]],
            'inconclusive': [{'rule': o[0], 'where': o[2], 'why': o[3][:400]} for o in R.obl if o[1] == 'inconclusive'],
        },
    }
    rep = os.path.join(ROOT, 'evidence', pid + '-violation.json')
    if viol:
        json.dump({'property': pid, 'violations': [
            {'rule': o[0], 'where': o[2], 'what': o[3], 'partition': o[4] if len(o) > 4 else []} for o in viol]},
            open(rep, 'w'), indent=1)
    elif os.path.exists(rep):
        os.remove(rep)
    json.dump(ev, open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s %s: %d obligations, %d held, %d inconclusive, %d violated (%.1fs)' % (
        pid, tier, len(R.obl), c['held'], c['inconclusive'], c['violated'], time.time() - t0))
    if '-v' in argv:
        for o in R.obl:
            print('  ', o[0], o[1], o[2], o[3][:300])
    for o in kn:
        print('KNOWN-FINDING: property=%s %s at %s: %s' % (pid, o[0], o[2], o[3][:300]))
    if viol:
        for o in viol[:8]:
            print('  %s at %s: %s' % (o[0], o[2], o[3][:500]))
        print('VIOLATION property=%s replay=%s' % (pid, rep))
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
