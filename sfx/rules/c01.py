"""The journal is only ever appended to, and is the only file written.

Call-graph effect analysis: every call in the crate that can change the file
system is enumerated; only opening the journal for appending is allowed.
Value-flow summaries of the writing operations give the path (the path the
journal was loaded from) and the text (a line break, then the entries'
journal text) of every write."""
from ..base import *
from .. import effects as FX

MODS = ('entry::Entry::parse', 'entry::Entry::as_parsable')


def root_field(t, field, p0):
    """Does t denote the given field of the receiver as it came in?"""
    n = 0
    while n < 50:
        n += 1
        if t.op == 'fld' and t.a[1] == field:
            b = t.a[0]
            if b is p0:
                return True
            # a receiver changed by calls / loops: the field itself is never written (checked separately)
            while b.op in ('post', 'loopval'):
                if b.op == 'post':
                    i = b.a[1]
                    b = b.a[2 + i]
                else:
                    lp = loop_of(b.a[0])
                    d = dict(lp.inits)
                    if b.a[1] not in d:
                        return None
                    b = d[b.a[1]]
            if b is p0:
                return True
            if b.op == 'agg':
                return None
            return None
        return None
    return None


def writers(ana):
    """Outermost public operations that reach an `open for writing`."""
    out = []
    for n in ('ledger::Ledger::fill_envelopes', 'ledger::Ledger::import_csv'):
        out.append(ana.summ(n, inline=(n,)))
    return out


def run(ana, R):
    def effects():
        n = 0
        for inst, name, line, t in FX.scan(ana, ana.p.local):
            n += 1
            w = '%s:%s' % (inst['file'], line)
            fn = inst['name'].replace('silverfox::', '')
            last = name.rsplit('::', 1)[1]
            if name.startswith('std::fs::OpenOptions::'):
                if last in ('truncate', 'create_new', 'write'):
                    b = FX.const_bool(t[2][1])
                    R.check(b is False, 'only-append', w, '%s calls OpenOptions::%s' % (fn, last))
                else:
                    R.ok('only-append', w, '%s calls OpenOptions::%s' % (fn, last))
            elif FX.FILEOUT.search(name):
                R.ok('only-append', w, '%s writes to an opened file' % fn)
            else:
                R.bad('only-append', w, '%s calls %s, which is not an append to the journal' % (fn, name))
        R.ok('only-append', 'crate', '%d effectful calls in %d functions enumerated' % (n, len(ana.p.local)))

    def path_source():
        ana.need_fields('ledger::Ledger', 'file_path')
        s = ana.summ('ledger::Ledger::from_file', inline=('ledger::Ledger::from_file',), opaque=('ledger::Ledger::add_from_file',))
        fi = ana.adt('ledger::Ledger')['variants'][0]['fields'].index('file_path')
        for st, v in s.outs:
            if not is_ok(v):
                continue
            led = v.a[2]
            while led.op == 'post':
                led = led.a[2 + led.a[1]]
            if led.op != 'agg':
                raise Unknown('from_file builds the ledger in an unknown way')
            R.check(led.a[2 + fi] is s.args[0], 'path-recorded', s.where, 'the ledger remembers the path it was loaded from: %s' % pp(led.a[2 + fi]), facts_str(st))
        allowed = ana.reach(ana.fn('ledger::Ledger::from_file'))
        below = ana.reach(ana.fn('ledger::Ledger::add_from_file'))
        for inst, line, kind in ana.field_writes('ledger::Ledger', 'file_path'):
            w = '%s:%s' % (inst['file'], line)
            if kind == 'build':
                continue
            ok = inst['id'] in allowed and inst['id'] not in below
            R.check(ok, 'path-fixed', w, '%s %ss the journal path' % (inst['name'], kind))

    def writes():
        for s in writers(ana):
            p0 = Sym('P0')
            any_ = False
            for st, v in s.outs:
                opened = {}
                for e, inloop, pf in events(st.ev):
                    if e[0] == 'open':
                        any_ = True
                        opts = dict(e[1].a[0]) if e[1].op == 'openopts' else None
                        if opts is None:
                            R.unk('append-mode', evline(e), 'open options not recognised')
                        else:
                            on = {k for k, x in opts.items() if x is not FALSE}
                            R.check('append' in on and not on & {'truncate', 'create_new'}, 'append-mode', evline(e),
                                    '%s opens with %s' % (s.name, sorted(on)), facts_str(st))
                        r = root_field(e[2], 'file_path', p0)
                        if r:
                            R.ok('append-path', evline(e), '%s opens the journal' % s.name)
                        elif e[2].op == 'str' or e[2].op == 'sym' or (e[2].op == 'app') or (e[2].op == 'fld' and (e[2].a[0] is p0 or e[2].a[0].op == 'app')):
                            R.bad('append-path', evline(e), '%s opens %s, which is not the path of the journal' % (s.name, pp(e[2])), facts_str(st))
                        else:
                            R.unk('append-path', evline(e), 'path %s' % pp(e[2]))
                    elif e[0] == 'io_write':
                        text(R, s, st, e)
            if not any_:
                R.unk('append-mode', s.where, '%s: no open event found' % s.name)

    R.section('only-append', effects)
    R.section('path', path_source)
    R.section('writes', writes)


def text(R, s, st, e):
    """A write is a separator followed by journal text of generated entries."""
    t = e[2]
    if t.op == 'loopval':
        lp = loop_of(t.a[0])
        init = dict(lp.inits).get(t.a[1])
        phi = raw('phi', lp.depth, t.a[1])
        if init is None or init.op != 'str':
            R.unk('append-text', evline(e), 'written text starts as %s' % (pp(init) if init else '?'))
            return
        lead = init.a[0]
        for f, u, ev in lp.parts:
            x = dict(u).get(t.a[1], phi)
            parts = list(x.a) if x.op == 'cat' else [x]
            if not parts or parts[0] is not phi:
                R.unk('append-text', evline(e), 'text grows as %s' % pp(x))
                continue
            rest = parts[1:]
            if not rest:
                continue
            lit = ''.join(y.a[0] for y in rest if y.op == 'str')
            body = [y for y in rest if y.op != 'str']
            if lit.strip():
                R.bad('append-text', evline(e), '%s writes extra text %r' % (s.name, lit))
            elif len(body) == 1 and body[0].op == 'app' and body[0].a[0].endswith('as_parsable'):
                starts = rest[0].op == 'str' and rest[0].a[0].startswith('\n') or lead.endswith('\n')
                R.check(starts, 'append-text', evline(e), '%s: every entry starts on a fresh line' % s.name)
            else:
                R.unk('append-text', evline(e), 'text grows by %s' % ' '.join(pp(y) for y in body))
    else:
        parts = list(t.a) if t.op == 'cat' else [t]
        if not all(y.op == 'str' or y.op == 'app' and y.a[0].endswith('as_parsable') for y in parts):
            R.unk('append-text', evline(e), 'writes %s' % pp(t))
            return
        lit = ''.join(y.a[0] for y in parts if y.op == 'str')
        if lit.strip():
            R.bad('append-text', evline(e), '%s writes extra text %r' % (s.name, lit), facts_str(st))
            return
        before = None
        for y in parts:
            if y.op == 'app' and (before is None or before.op == 'str' and not before.a[0].endswith('\n')):
                R.bad('append-text', evline(e), '%s: the entry may be glued to the last line of the journal' % s.name, facts_str(st))
                return
            before = y
        R.ok('append-text', evline(e), '%s: every entry starts on a fresh line' % s.name)
