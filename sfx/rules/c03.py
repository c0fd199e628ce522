"""A failure is never silent.

Error-flow analysis: each function is summarised by itself, with every function
that can fail left uninterpreted. On each path on which such a call (or a
fallible library call) fails, the function must itself return the failure; a
loop must not go on after one; no result may be dropped without being looked
at. At the top, main must print it on standard error and exit nonzero."""
import re
from ..base import *
from .c20 import appn, mentions

# library calls whose failure is a failure of the run (others, such as looking
# up an environment variable or a character, have a meaning of their own)
EXT = ('std::fs::read_to_string', 'std::fs::read', 'std::fs::File::open', 'std::env::current_dir', 'std::env::set_current_dir',
       'open', 'io_write', 'fmt_result', 'terminal_size::terminal_size', 'parse_from_str')
ERRS = re.compile(r'errors::\w*Error')


def run(ana, R):
    p = ana.p
    fall = {}
    opt = {}
    for i in p.local:
        t = p.ty(i['body']['locals'][0])
        n = i['name'].replace('silverfox::', '')
        if '{closure#' in n or i['file'].endswith('errors.rs'):
            continue
        if t['k'] == 'adt' and t['name'].endswith('result::Result') and ERRS.search(t['s']):
            fall[n] = i
        elif t['k'] == 'adt' and t['name'].endswith('option::Option'):
            opt[n] = i
    names = tuple(fall)

    def ext(x):
        return x.op == 'app' and isinstance(x.a[0], str) and (x.a[0] in EXT or x.a[0].endswith('::parse_from_str') or x.a[0] == 'std::str::FromStr::from_str')

    def fallible(x):
        """what a failure of this value stands for, or None"""
        if x.op == 'app' and x.a[0] in fall:
            return x.a[0]
        if ext(x):
            return x.a[0]
        if x.op == 'elem':
            y = x.a[0]
            while y.op in ('from', 'take'):
                y = y.a[0]
            if y.op == 'fld' and y.a[1] == 'Ok.0' and y.a[0].op == 'app' and 'CsvImporter' in str(y.a[0].a[0]) or appn(y, 'records', 'into_records') or y.op == 'records':
                return 'a record'
        return None

    def failed(facts):
        """fallible values known to have failed"""
        out = []
        for k, _ in facts.items() if isinstance(facts, dict) else facts:
            if isinstance(k, T) and k.op == 'discr':
                w = fallible(k.a[0])
                if w:
                    bad = 0 if w == 'terminal_size::terminal_size' else 1
                    if fdec(facts, Eq(k, Int(bad))) == 1:
                        out.append((k.a[0], w))
        return out

    def carries(v, x):
        """is the failure part of what is returned?"""
        return any(y.op == 'agg' and y.a[0] == RES and y.a[1] == 1 or y is x for y in walk(v))

    def deep(ts, evs, seen=None):
        """all loops behind these terms and events"""
        seen = set() if seen is None else seen
        out = []

        def one(y):
            if y in seen:
                return
            seen.add(y)
            lp = loop_of(y)
            out.append(lp)
            ts2 = [lp.it] + [i for _, i in lp.inits] + [k for f, u, pe in lp.parts for k, _ in f if isinstance(k, T)] + [z for f, u, pe in lp.parts for _, z in u if isinstance(z, T)]
            out.extend(deep([t for t in ts2 if isinstance(t, T)], [e for f, u, pe in lp.parts for e in pe], seen))
        for t in ts:
            for y in walk(t):
                if y.op == 'loop':
                    one(y)
        for e in evs:
            for z in e:
                if isinstance(z, T):
                    for y in walk(z):
                        if y.op == 'loop':
                            one(y)
        return out

    def modular():
        nfn = nsite = 0
        seen_sites = set()
        for inst in p.local:
            n = inst['name'].replace('silverfox::', '')
            if '{closure#' in n or n.endswith('::fmt') or inst['file'].endswith('errors.rs') or n == 'main':
                continue
            # text that may be one thing or another: a failed attempt is not a failure
            attempt = n in opt
            try:
                s = ana.summ(inst, inline=(n,) if '<' not in n else (), opaque=tuple(x for x in names if x != n) + tuple(o for o in opt if o != n), limit=20000)
            except Unknown as e:
                if any(c and c['name'].replace('silverfox::', '') in fall for _, c, _, _ in ana.calls(inst)):
                    R.unk('propagate', '%s:%s' % (inst['file'], inst['line']), str(e)[:200])
                continue
            nfn += 1
            rt = p.ty(inst['body']['locals'][0]).get('s', '')
            for st, v in s.outs:
                for x, w in failed(st.facts):
                    if ext(x) and (attempt or x.a[0].endswith('from_str') and not rt.startswith('std::result::Result')):
                        continue
                    nsite += 1
                    if carries(v, x):
                        R.ok('propagate', s.where, '%s passes on a failure of %s' % (n, w))
                    elif any(y.op in ('loopval', 'phi') for y in walk(v)) and mentions(v, x):
                        R.unk('propagate', s.where, '%s: failure of %s kept in %s' % (n, w, pp(v, 3)))
                    else:
                        R.bad('propagate', s.where, '%s carries on when %s fails' % (n, w), facts_str(st))
                for lp in deep([v] + [k for k in st.facts if isinstance(k, T)] + [m for m in st.mem.values() if isinstance(m, T)], st.ev):
                    if lp in seen_sites:
                        continue
                    seen_sites.add(lp)
                    where = '%s:%s' % lp.where
                    for f, u, pe in lp.parts:
                        for x, w in failed(f):
                            if ext(x) and x.a[0].endswith('from_str'):
                                continue
                            if any(y.op == 'agg' and y.a[0] == RES and y.a[1] == 1 or y is x for _, z in u if isinstance(z, T) for y in walk(z)):
                                R.unk('loop', where, '%s keeps the failure of %s' % (n, w))
                            else:
                                R.bad('loop', where, '%s goes on to the next one when %s fails' % (n, w), fstr(f))
                calls(s, n, st.ev, st.facts, [v] + [m for m in st.mem.values() if isinstance(m, T)], st, v)
        R.ok('propagate', '-', '%d functions, %d failing paths' % (nfn, nsite))

    def calls(s, n, evs, facts, keep, st, v, part=None):
        for j, e in enumerate(evs):
            if e[0] == 'loop':
                lp = loop_of(e[1])
                for f, u, pe in lp.parts:
                    calls(s, n, pe, f, [z for _, z in u if isinstance(z, T)], st, v, f)
                continue
            if not isinstance(e[0], str) or e[0] not in fall and e[0] not in ('io_write', 'open', 'std::env::set_current_dir'):
                continue
            x = raw('app', *(e[:3] if e[0] == 'io_write' else e[:-1]))
            if part is None and v.op == 'agg' and v.a[0] == RES and v.a[1] == 1:
                continue    # another failure is returned
            where = evline(e) if not str(e[-1][0]).startswith('/') else s.where
            d = fdec(facts, Eq(discr(x), Int(1)))
            if d is None and part is not None:
                d = fdec(st.facts, Eq(discr(x), Int(1)))
            if d is not None:
                if d == 0:
                    R.ok('looked-at', where, '%s looks at the outcome of %s' % (n, e[0]))
                continue
            if any(y is x for z in keep for y in walk(z)):
                R.ok('looked-at', where, '%s hands on the outcome of %s' % (n, e[0]))
            elif any(y is x for k in (facts if isinstance(facts, dict) else dict(facts)) if isinstance(k, T) for y in walk(k)) or any(mentions(z, x) for z in keep) or any(y is x for o in evs[j + 1:] for z in o if isinstance(z, T) for y in walk(z)):
                R.unk('looked-at', where, '%s: outcome of %s used in an unknown way' % (n, e[0]))
            elif part is not None and any(y is x for y in walk(v)):
                R.unk('looked-at', where, '%s: outcome of %s used after the loop' % (n, e[0]))
            else:
                R.bad('looked-at', where, '%s never looks at the outcome of %s' % (n, e[0]), facts_str(st) if part is None else fstr(part))

    def top():
        s = ana.summ('main', inline=('main',), opaque=names)
        nok = 0
        for st, v in s.outs:
            fl = failed(st.facts)
            if fl:
                if carries(v, fl[0][0]) and v.op == 'agg' and v.a[0] == RES:
                    R.ok('main', s.where, 'main returns the failure')
                    continue
                if v.op == 'agg' and v.a[0].endswith('ExitCode'):
                    c = v
                    while c.op == 'agg' and len(c.a) == 3:
                        c = c.a[2]
                    c = num(c)
                    if c is None:
                        R.unk('main', s.where, 'main returns %s' % pp(v, 3))
                    else:
                        status(s, st, fl, c)
                    continue
                if appn(v, 'from', 'ExitCode') or v.op != 'agg' and v.op != 'tuple' and v.op != 'unit':
                    R.unk('main', s.where, 'main returns %s' % pp(v, 3))
                    continue
                R.bad('main', s.where, 'main ends normally when %s fails' % fl[0][1], facts_str(st))
            else:
                und = [e for e in st.ev if e[0] in fall and E.decide(st, Eq(discr(raw('app', *e[:-1])), Int(1))) is None]
                if und and not any(y is raw('app', *und[0][:-1]) for y in walk(v)):
                    R.bad('main', s.where, 'main never looks at the outcome of %s' % und[0][0], facts_str(st))
                else:
                    nok += 1
                    R.ok('main', s.where, 'a run that ends normally has not failed')
        for st, name, args, *_ in s.diverge:
            fl = failed(st.facts)
            if not fl:
                continue
            if 'exit' not in name and 'abort' not in name:
                continue
            c = num(args[0]) if args else None
            if c is None:
                R.unk('main', s.where, 'exit status %s' % (pp(args[0], 3) if args else '?'))
            else:
                status(s, st, fl, c)

    def status(s, st, fl, c):
        pr = [e for e in st.ev if e[0] == 'eprint']
        if int(c) % 256 == 0:
            R.bad('main', s.where, 'the exit status is %s when %s fails' % ('0' if c == 0 else '%s, which is seen as 0,' % c, fl[0][1]), facts_str(st))
        else:
            R.ok('main', s.where, 'nonzero exit status')
        err = raw('fld', fl[0][0], 'Err.0')
        if any(any(y is err for y in walk(e[1])) for e in pr):
            R.ok('main', s.where, 'the failure is printed on standard error')
        elif any(e[0] not in fall and e[0] not in ('print', 'eprint') for e in st.ev):
            R.unk('main', s.where, 'how a failure is printed')
        elif pr:
            R.bad('main', s.where, 'what is printed on standard error is not the failure', facts_str(st))
        else:
            R.bad('main', s.where, 'nothing is printed on standard error when %s fails' % fl[0][1], facts_str(st))

    def quits():
        """no other way out of a run with status 0 than to end it, or help"""
        n = 0
        for inst in p.local:
            nm = inst['name'].replace('silverfox::', '')
            if nm.startswith('main'):
                continue
            for name, callee, line, t in ana.calls(inst):
                n += 1
                if name != 'std::process::exit':
                    continue
                a = t[2][0]
                c = (a[1].get('v') or {}).get('int') if a[0] == 'k' else None
                where = '%s:%s' % (inst['file'], line)
                s = ana.summ(nm.split('::{closure')[0], inline=(nm.split('::{closure')[0],))
                for st, dn, da, *_ in s.diverge:
                    if 'exit' in dn and num(da[0]) == 0 if da else False:
                        fl = failed(st.facts)
                        if fl:
                            R.bad('exit', where, '%s exits with status 0 when %s fails' % (nm, fl[0][1]), facts_str(st))
                        elif any(isinstance(k, T) and k.op == 'elem' and k.a[0].op == 'chars' and k.a[0].a[0] is raw('elem', Sym('argv'), Int(1)) and z[0] == '!' and set(z[1]) >= set(b'sbrien') for k, z in st.facts.items()):
                            R.bad('exit', where, '%s exits with status 0 when the command is unknown' % nm, facts_str(st))
                        elif appargs(st):
                            R.ok('exit', where, '%s: exit without a command' % nm)
                        else:
                            R.unk('exit', where, '%s exits with status 0: %s' % (nm, facts_str(st)))
        R.ok('exit', '-', '%d calls looked at' % n)

    def lossy():
        """text that cannot be read is not replaced by something that can"""
        n = 0
        for inst in p.local:
            nm = inst['name'].replace('silverfox::', '')
            names = [x[0] for x in ana.calls(inst)]
            n += len(names)
            for name, callee, line, t in ana.calls(inst):
                if name.split('::')[-1] in ('from_utf8_lossy', 'from_utf8_lossy_owned') and any(o['name'].replace('silverfox::', '').split('::{closure')[0] == nm.split('::{closure')[0] and any(x[0].split('::')[-1] in ('read', 'read_to_end') for x in ana.calls(o)) for o in p.local):
                    R.bad('lossy', '%s:%s' % (inst['file'], line), '%s replaces what cannot be read in a file' % nm, '')
        R.ok('lossy', '-', '%d calls looked at' % n)

    def appargs(st):
        a = raw('len', Sym('argv'))
        return any(isinstance(k, T) and k.op == 'lt' and k.a[0] is Int(1) and z == ('=', 0) for k, z in st.facts.items()) or any(isinstance(k, T) and k.op == 'len' for k in st.facts)

    for f in (modular, top, quits, lossy):
        R.section(f.__name__, f)
