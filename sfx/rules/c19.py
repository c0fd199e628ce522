"""Paths in a journal are relative to that journal.

Typestate of the working directory along every path of the include reader: the
file is read where the path was given, its text is read with the working
directory set to the file's own directory (when it has one), and on every path
that changed it the former working directory is set again. No other code
changes it, and include hands over the path as written."""
from ..base import *

AF, AS = 'ledger::Ledger::add_from_file', 'ledger::Ledger::add_from_str'
SET, GET, READ = 'std::env::set_current_dir', 'std::env::current_dir', 'std::fs::read_to_string'


def run(ana, R):
    def state():
        ana.fn(AS)
        s = ana.summ(AF, inline=(AF,), opaque=(AS,))
        path = Sym('P1')
        par = raw('app', 'std::path::Path::parent', path)
        pdir = payload(par)
        nonempty = Not(Eq(E.length(pdir), Int(0)))
        eqe = Eq(pdir, Str(''))

        def empty(o):
            d = E.decide(o.s, eqe)
            return bool(d) if d is not None else not o(nonempty)

        def rel(st, a):
            return [k for k in related(st, a, {discr(par), E.length(pdir)})
                    if not (k.op == 'discr' and k.a[0].op == 'app' and k.a[0].a[0] in (SET, GET, READ, AS))
                    and not (k.op == 'app' and k.a[0] in ('std::path::Path::is_absolute', 'std::path::Path::is_relative', 'std::path::Path::has_root') and cwd == 'start')]
        n = 0
        for st, v in s.outs:
            cwd, snaps, sets = 'start', {}, 0
            opaque_ev = [e for e, il, _ in events(st.ev) if il and e[0] in (SET, GET, AS, READ)]
            if opaque_ev:
                R.unk('directory-state', evline(opaque_ev[0]), 'directory changed inside a loop')
                continue
            amb = False
            for e in st.ev:
                if e[0] == READ and e[1] is path:
                    R.check(cwd == 'start', 'file-found', evline(e), 'the file is read where its path was given', facts_str(st))
                elif e[0] == GET:
                    k = sum(1 for x in st.ev[:st.ev.index(e)] if x[0] in (SET, 'loop') or x[0].startswith('ledger::'))
                    t = payload_ok(raw('app', GET, Int(k)) if k else raw('app', GET))
                    if t in snaps and snaps[t] != cwd:
                        amb = True
                    snaps[t] = cwd
                elif e[0] == SET:
                    r = E.decide(st, Eq(discr(raw('app', SET, e[1])), Int(0)))
                    sets += 1
                    if e[1] in snaps:
                        to = snaps[e[1]]
                    elif e[1] is pdir:
                        to = 'parent'
                    elif any(y is par or y is path for y in walk(e[1])):
                        to = ('other', e[1])
                    else:
                        to = ('other', e[1])
                    if r == 0:
                        if to == 'start':
                            cwd = 'failed'      # could not be restored: reported as an error
                        continue
                    cwd = to
                elif e[0] == AS:
                    n += 1
                    for exp, asked, s2 in outcomes(st, lambda o: 'parent' if o(Eq(discr(par), Int(1))) and not empty(o) else 'start'):
                        if amb:
                            R.unk('directory-state', evline(e), 'working directory asked for twice')
                        elif cwd == exp:
                            R.ok('directory-state', evline(e), 'the text is read in the directory of its file')
                        elif isinstance(cwd, tuple):
                            if any(y is path for y in walk(cwd[1])):
                                R.unk('directory-state', evline(e), 'working directory is %s' % pp(cwd[1], 4))
                            else:
                                R.bad('directory-state', evline(e), 'paths in the file resolve against %s' % pp(cwd[1], 4), facts_str(st))
                        elif any(rel(st, a) for a, _ in asked):
                            R.unk('directory-state', evline(e), 'condition on the directory not recognised')
                        elif cwd == 'start' and not sets and uses_path(e, path):
                            R.unk('directory-state', evline(e), 'paths are resolved without the working directory')
                        elif exp == 'parent':
                            R.bad('directory-state', evline(e), 'the text is read without going to the directory of its file', facts_str(st))
                        else:
                            R.bad('directory-state', evline(e), 'the working directory is changed for a file without a directory part', facts_str(st))
            if sets:
                if cwd == 'failed':
                    R.check(is_err(v) or v.op != 'agg', 'directory-restored', s.where, 'failing to go back is an error', facts_str(st))
                elif cwd == 'start':
                    R.ok('directory-restored', s.where, 'the former working directory is restored')
                elif amb:
                    R.unk('directory-restored', s.where, 'working directory asked for twice')
                else:
                    R.bad('directory-restored', s.where, 'the working directory is not restored (left at %s)' % (cwd if isinstance(cwd, str) else pp(cwd[1], 4)), facts_str(st))
        if not n:
            R.unk('directory-state', s.where, 'no path that reads the text')

    def uses_path(e, path):
        for a in e[1:-1]:
            if not isinstance(a, T):
                continue

            def look(t):
                if t.op == 'app' and t.a[0] == READ:
                    return False
                if t is path:
                    return True
                return any(look(x) for x in t.a if isinstance(x, T))
            if look(a):
                return True
        return False

    def elsewhere():
        f = ana.fn(AF)
        inside = set(i for i in ana.reach(f))
        n = 0
        for inst in ana.p.local:
            for name, i2, line, t in ana.calls(inst):
                if name == SET:
                    n += 1
                    own = inst['name'] == f['name'] or inst['name'].startswith(f['name'] + '::')
                    if own:
                        R.ok('no-other-change', '%s:%s' % (inst['file'], line), 'in the include reader')
                    elif inst['id'] in inside:
                        R.ok('no-other-change', '%s:%s' % (inst['file'], line), 'in a helper of the include reader')
                    else:
                        R.bad('no-other-change', '%s:%s' % (inst['file'], line), '%s changes the working directory' % inst['name'].replace('silverfox::', ''))

    def include():
        n = 'ledger::Ledger::parse_chunk'
        s = ana.summ(n, inline=(n,), opaque=(AF,))
        k = 0
        for st, v in s.outs:
            for e, _, _ in events(st.ev):
                if e[0] == AF:
                    k += 1
                    w = raw('elem', raw('words', Sym('P1')), Int(1))
                    if e[2] is w:
                        R.ok('include-path', evline(e), 'include hands over the path as written')
                    elif any(y is raw('fld', Sym('P0'), 'file_path') for y in walk(e[2])):
                        R.bad('include-path', evline(e), 'an include resolves against the main journal: %s' % pp(e[2], 5), facts_str(st))
                    elif any(y.op == 'app' and y.a[0] in (GET, 'std::path::Path::join', 'std::path::Path::parent') for y in walk(e[2])):
                        R.unk('include-path', evline(e), 'path %s' % pp(e[2], 4))
                    elif e[2].op == 'elem':
                        R.bad('include-path', evline(e), 'include reads %s' % pp(e[2], 4), facts_str(st))
                    else:
                        R.unk('include-path', evline(e), 'path %s' % pp(e[2], 4))
                    R.check(v.op == 'app' and v.a[0] == AF or is_err(v) or is_ok(v) and E.decide(st, Eq(discr(raw('app', *e[:-1])), Int(0))) == 1,
                            'include-result', evline(e), 'the result of the included file is the result of the include', facts_str(st))
        if not k:
            R.unk('include-path', s.where, 'no include found')

    def remembered():
        """from_file keeps the path as given and reads that path."""
        n = 'ledger::Ledger::from_file'
        s = ana.summ(n, inline=(n,), opaque=(AF,))
        fs = ana.adt('ledger::Ledger')['variants'][0]['fields']
        for st, v in s.outs:
            for e, _, _ in events(st.ev):
                if e[0] == AF:
                    R.check(e[2] is Sym('P0') or not isinstance(e[2], T) or e[2].op == 'app', 'path-given', evline(e), 'the journal is read from the path given')
            if is_ok(v):
                # the file path of the result
                t = v.a[2]
                if t.op == 'agg':
                    fp = t.a[2 + fs.index('file_path')]
                elif t.op == 'post' and t.a[2].op == 'agg':
                    fp = t.a[2].a[2 + fs.index('file_path')]
                else:
                    R.unk('path-given', s.where, 'ledger %s' % pp(t, 3))
                    continue
                if fp is Sym('P0'):
                    R.ok('path-given', s.where, 'the path given is remembered')
                elif fp.op == 'app' or any(y is Sym('P0') for y in walk(fp)):
                    R.unk('path-given', s.where, 'path remembered: %s' % pp(fp, 4))
                else:
                    R.bad('path-given', s.where, 'the path remembered is %s' % pp(fp, 4))

    R.section('directory-state', state)
    R.section('no-other-change', elsewhere)
    R.section('include-path', include)
    R.section('path-given', remembered)
