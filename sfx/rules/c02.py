"""--no-move and commands other than import leave every file untouched.

Partitions of the command dispatcher: envelopes are filled exactly when moving
is not disabled, a CSV file is imported exactly for the import command; and no
other operation it calls can reach a file-system write in the call graph."""
from ..base import *
from .. import effects as FX

FILL, IMP = 'ledger::Ledger::fill_envelopes', 'ledger::Ledger::import_csv'


def run(ana, R):
    def reach():
        for n in ('ledger::Ledger::from_file', 'ledger::Ledger::display_flat_balance', 'ledger::Ledger::display_envelopes',
                  'ledger::Ledger::display_register', 'flags::CommandFlags::parse_from_env'):
            f = ana.fn(n)
            c = FX.may_write(ana, f)
            R.check(c is None, 'no-hidden-writes', '%s:%s' % (f['file'], f['line']),
                    '%s reaches no write' % n if c is None else 'reading or displaying reaches a write: ' + ' -> '.join(c))

    def main_direct():
        """Everything outside the two writing operations is free of writes."""
        fill, imp = ana.fn(FILL), ana.fn(IMP)
        inside = set(ana.reach(fill)) | set(ana.reach(imp))
        for inst in ana.p.local:
            if inst['id'] in inside:
                continue
            for i, name, line, t in FX.scan(ana, [inst]):
                R.bad('no-hidden-writes', '%s:%s' % (inst['file'], line), '%s calls %s outside filling and importing' % (inst['name'], name))

    def dispatch():
        ana.need_fields('flags::CommandFlags', 'no_move', 'subcommand', 'csv_file')
        s = ana.summ('flags::CommandFlags::execute', opaque=('flags::get_file_from_env',))
        p0 = Sym('P0')
        nm = raw('fld', p0, 'no_move')
        sub = discr(raw('fld', p0, 'subcommand'))
        vs = [v['name'] for v in ana.adt('flags::Subcommand')['variants']]
        if 'Import' not in vs:
            raise Missing('Subcommand::Import')
        imp = Int(E.ENUM_DISCR[('silverfox::flags::Subcommand', vs.index('Import'))])
        for st, v in s.outs:
            evs = [e for e, _, _ in events(st.ev)]
            names = [e[0] for e in evs]
            facts = facts_str(st)
            if any(n in ('open', 'io_write') for n in names):
                R.bad('dispatch', s.where, 'the dispatcher writes a file itself', facts)
            loaded = [e for e in evs if e[0].endswith('Ledger::from_file')]
            ok_load = loaded and E.decide(st, Eq(discr(raw('app', *loaded[0][:-1])), Int(0))) == 1
            for exp, asked, s2 in outcomes(st, lambda o: (o(nm), o(Eq(sub, imp)))):
                nomove, isimp = exp
                if nomove and FILL in names:
                    if any(related(st, a, (nm, sub)) for a, _ in asked if a is nm):
                        R.unk('fill-iff-moving', s.where, 'condition not recognised')
                    else:
                        R.bad('fill-iff-moving', s.where, 'envelopes are filled although moving is disabled', facts)
                elif not nomove and ok_load and FILL not in names:
                    R.bad('fill-iff-moving', s.where, 'envelopes are not filled although moving is enabled', facts)
                else:
                    R.ok('fill-iff-moving', s.where, 'partition of the dispatcher')
                if not isimp and IMP in names:
                    R.bad('import-iff-import', s.where, 'a file is imported although the command is not import', facts)
                else:
                    R.ok('import-iff-import', s.where, 'partition of the dispatcher')

    def flag():
        """-n and --no-move set the flag and nothing resets it."""
        for inst, line, kind in ana.field_writes('flags::CommandFlags', 'no_move'):
            if kind == 'build':
                continue
            blk = [st for b in inst['body']['blocks'] for st in b['s'] if st[0] == '=' and st[3] == line]
            for st in blk:
                rv = st[2]
                if ana._proj_hits(inst, st[1], 'silverfox::flags::CommandFlags', ana.adt('flags::CommandFlags')['variants'][0]['fields'].index('no_move')):
                    v = rv[1][1].get('v') if rv[0] == 'use' and rv[1][0] == 'k' else None
                    if v is not None and 'bool' in v:
                        R.check(v['bool'] is True, 'flag-sticks', '%s:%s' % (inst['file'], line), 'no_move is only ever switched on')
                    else:
                        R.unk('flag-sticks', '%s:%s' % (inst['file'], line), 'no_move assigned a computed value')

    R.section('no-hidden-writes', reach)
    R.section('no-hidden-writes', main_direct)
    R.section('dispatch', dispatch)
    R.section('flag', flag)
