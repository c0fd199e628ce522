"""A second definition of the same thing is an error.

Partitions of the three places that take in a named definition: it is added
exactly in the partitions where its name was looked up among the existing ones
and not found, and every partition where it was found returns an error."""
from ..base import *
from ..acc import leaves_out

AP = 'account::Account::parse'


def unwrap_key(k):
    return k


def run(ana, R):
    def accounts():
        n = 'ledger::Ledger::parse_chunk'
        ana.need_fields('ledger::Ledger', 'accounts')
        ana.need_fields('account::Account', 'name')
        s = ana.summ(n, inline=(n,), opaque=('add_from_file',))
        fs = ana.adt('ledger::Ledger')['variants'][0]['fields']
        acc = raw('fld', Sym('P0'), 'accounts')
        cnt = 0
        for st, v in s.outs:
            ps = [raw('app', *e[:-1]) for e, il, _ in events(st.ev) if e[0] == AP]
            if not ps:
                continue
            p = ps[0]
            okp = fdec(st.facts, Eq(discr(p), Int(0)))
            new = payload_ok(p)
            name = raw('fld', new, 'name')
            m = ana.mem(st, 0)
            a = m.a[2 + fs.index('accounts')] if m is not None and m.op == 'agg' else acc if m is Sym('P0') else None
            if okp == 0:
                R.check(a is acc and not is_ok(v), 'account', s.where, 'a definition that cannot be read adds nothing and fails', facts_str(st))
                continue
            if a is None:
                R.unk('account', s.where, 'ledger %s' % pp(m, 3))
                continue
            cnt += 1
            mem, other = memberships(st.facts)
            here = [x for ms, k, x, _ in mem if ms is acc and k is name]
            about = [k for ms, k, x, _ in mem if ms is acc and k is not name] + [k for k, src, at in other if src is acc or src is None]
            added = a is not acc
            if added and not (a.op == 'mput' and a.a[0] is acc):
                R.unk('account', s.where, 'accounts become %s' % pp(a, 4))
                continue
            if added and a.a[1] is not name:
                if a.a[1].op == 'app' or not any(y is new for y in walk(a.a[1])):
                    R.bad('account', s.where, 'an account is kept under %s and not under its name' % pp(a.a[1], 5), facts_str(st))
                else:
                    R.unk('account', s.where, 'key %s' % pp(a.a[1], 4))
                continue
            if here and here[0] is not None:
                if here[0] == 1:
                    if added:
                        R.bad('account', s.where, 'a second definition of an account replaces the first', facts_str(st))
                    elif is_err(v):
                        R.ok('account', s.where, 'a second definition of an account is an error')
                    elif is_ok(v):
                        R.bad('account', s.where, 'a second definition of an account is ignored without an error', facts_str(st))
                    else:
                        R.unk('account', s.where, 'result %s' % pp(v, 3))
                else:
                    if added and is_ok(v):
                        R.ok('account', s.where, 'a new account is added')
                    elif is_err(v) or not added:
                        extra = [k for k in st.facts if isinstance(k, T) and k not in (discr(p),) and k.op not in ('has',) and any(y is p for y in walk(k))]
                        R.bad('account', s.where, 'a first definition of an account is %s' % ('rejected' if is_err(v) else 'ignored'), facts_str(st))
            elif len(other) == 1 and other[0][1] is acc and other[0][2] and len(other[0][2]) == 1 and other[0][2][0][0].op in ('app', 'eq') \
                    and any(y is name for y in walk(other[0][2][0][0])):
                R.bad('account', s.where, 'accounts are compared by %s' % pp(other[0][2][0][0], 5), facts_str(st))
            elif about:
                if added and all(any(y is new for y in walk(k)) for k in about) and not other:
                    R.bad('account', s.where, 'an account is added although only %s was looked up' % '; '.join(pp(k, 5) for k in about), facts_str(st))
                else:
                    R.unk('account', s.where, 'look-up not recognised')
            elif added:
                if any(isinstance(k, T) and any(y is acc for y in walk(k)) for k in st.facts):
                    R.unk('account', s.where, 'look-up not recognised')
                else:
                    R.bad('account', s.where, 'an account is added without looking for an earlier definition', facts_str(st))
            else:
                R.unk('account', s.where, 'account not added')
        if not cnt:
            R.unk('account', s.where, 'no account definition found')

    def envelopes():
        n = 'account::Account::add_envelope'
        ana.need_fields('account::Account', 'expense_envelopes', 'goal_envelopes')
        ana.need_fields('envelope::Envelope', 'name', 'envelope_type')
        s = ana.summ(n)
        fs = ana.adt('account::Account')['variants'][0]['fields']
        ix = {f: fs.index(f) for f in ('expense_envelopes', 'goal_envelopes')}
        vs = [v['name'] for v in ana.adt('envelope::EnvelopeType')['variants']]
        new = Sym('P1')
        name, ty = raw('fld', new, 'name'), discr(raw('fld', new, 'envelope_type'))
        for st, v in s.outs:
            m = ana.mem(st, 0)
            if m is None or m.op not in ('agg', 'sym'):
                R.unk('envelope', s.where, 'account %s' % (pp(m, 3) if m is not None else None))
                continue
            added = []
            for f, i in ix.items():
                old = raw('fld', Sym('P0'), f)
                x = m.a[2 + i] if m.op == 'agg' else old
                if x is not old:
                    if x.op == 'push' and x.a[0] is old and x.a[1] is new:
                        added.append(f)
                    else:
                        added.append(None)
            if None in added:
                R.unk('envelope', s.where, 'envelopes not simply added')
                continue
            want = [f for f, t in (('expense_envelopes', 'Expense'), ('goal_envelopes', 'Goal')) if t in vs and
                    fdec(st.facts, Eq(ty, Int(E.ENUM_DISCR.get(('silverfox::envelope::EnvelopeType', vs.index(t)), vs.index(t))))) != 0]
            res = {}
            weird = False
            for k in st.facts:
                if isinstance(k, T) and k.op == 'found':
                    lp = loop_of(k.a[0])
                    src, whole = src_of(lp.it)
                    f = [x for x in ix if src is raw('fld', Sym('P0'), x)]
                    root = src
                    while root is not None and root.op in ('take', 'from') and num(root.a[1]) is not None:
                        root = root.a[0]
                    if leaves_out(lp.it) and any(root is raw('fld', Sym('P0'), x) for x in ix):
                        R.bad('envelope', '%s:%s' % lp.where, 'only some of the envelopes are looked at for one of the same name: %s' % pp(lp.it, 4), facts_str(st))
                        weird = True
                        continue
                    el = raw('elem', src, raw('k', lp.depth)) if src is not None else None
                    if f and whole and len(lp.parts) == 1 and el is not None:
                        at = [(a, vv) for a, vv in lp.parts[0][0] if isinstance(a, T) and a.op != 'more']
                        if at == [(Eq(raw('fld', el, 'name'), name), ('=', 0))]:
                            res[f[0]] = fdec(st.facts, k)
                            continue
                        if len(at) == 1 and at[0][0].op in ('app', 'eq'):
                            R.bad('envelope', '%s:%s' % lp.where, 'envelopes are compared by %s' % pp(at[0][0], 5), fstr(lp.parts[0][0]))
                            weird = True
                            continue
                    weird = True
            if weird:
                R.unk('envelope', s.where, 'look-up not recognised')
                continue
            other = [k for k in st.facts if isinstance(k, T) and k.op != 'found' and k is not ty and not any(y.op == 'hit' for y in walk(k))]
            if added:
                f = added[0]
                if len(added) > 1 or f not in want or len(want) > 1:
                    R.bad('envelope', s.where, 'an envelope is added to %s although its kind is different' % ' and '.join(added), facts_str(st))
                elif res.get(f) == 0:
                    R.check(is_ok(v), 'envelope', s.where, 'a new envelope is added', facts_str(st))
                elif res.get(f) == 1:
                    R.bad('envelope', s.where, 'a second envelope of the same name is added', facts_str(st))
                elif spot_only(st.facts, raw('fld', Sym('P0'), f)):
                    R.bad('envelope', s.where, 'an envelope is added after comparing its name with that of one other only', facts_str(st))
                elif other:
                    R.unk('envelope', s.where, 'condition not recognised')
                else:
                    R.bad('envelope', s.where, 'an envelope is added without looking for one of the same name%s' % (' among its own kind' if res else ''), facts_str(st))
            else:
                if is_ok(v):
                    R.bad('envelope', s.where, 'an envelope is dropped without an error', facts_str(st))
                elif len(want) == 1 and res.get(want[0]) == 1:
                    R.ok('envelope', s.where, 'a second envelope of the same name is an error')
                elif len(want) == 1 and res.get(want[0]) == 0 and not other or len(want) == 1 and res and want[0] not in res and not other:
                    R.bad('envelope', s.where, 'an envelope is rejected although there is none of its name and kind', facts_str(st))
                else:
                    R.unk('envelope', s.where, 'rejected: %s' % '; '.join(facts_str(st)))

    def added():
        """Account::parse adds every envelope through add_envelope."""
        n = AP
        s = ana.summ(n, inline=(n,), opaque=('account::Account::add_envelope',))
        EV = 'envelope::Envelope::parse'
        k = 0
        for st, v in s.outs:
            for e, il, f in events(st.ev):
                if e[0] == 'account::Account::add_envelope':
                    k += 1
            for e, il, f in events(st.ev):
                if e[0] == EV:
                    t = raw('app', *e[:-1])
                    facts = dict(st.facts)
                    facts.update(f)
                    if fdec(facts, Eq(discr(t), Int(0))) == 1:
                        fed = any(x[0] == 'account::Account::add_envelope' and x[2] is payload_ok(t) for x, _, _ in events(st.ev))
                        R.check(fed, 'envelope-taken-in', evline(e), 'an envelope that was read is taken in by add_envelope', fstr(f))
        if not k:
            R.unk('envelope-taken-in', s.where, 'add_envelope is not called')

    def fields():
        n = 'importer::Rules::get_entry_from_record'
        s = ana.summ(n, inline=(n,))
        fl = raw('fld', Sym('P0'), 'fields')
        loops = {}
        for st, v in s.outs:
            for k in st.facts:
                if isinstance(k, T):
                    for x in walk(k):
                        if x.op == 'loopval' and any(y is fl for y in walk(loop_of(x.a[0]).it)):
                            loops.setdefault(x, []).append((st, v))
        if not loops:
            raise Unknown('no loop over the fields')
        for x, outs in loops.items():
            lp = loop_of(x.a[0])
            where = '%s:%s' % lp.where
            phi = raw('phi', lp.depth, x.a[1])
            for f, u, ev in lp.parts:
                y = dict(u).get(x.a[1], phi)
                if y is phi:
                    R.bad('csv-field', where, 'a field is left out', fstr(f))
                    continue
                if not (y.op == 'mput' and y.a[0] is phi):
                    R.unk('csv-field', where, 'variables become %s' % pp(y, 4))
                    continue
                h = fdec(f, raw('has', phi, y.a[1]))
                if h == 0:
                    R.ok('csv-field', where, 'a field is taken in only if its name is new')
                elif h == 1:
                    R.bad('csv-field', where, 'a second field of the same name replaces the first', fstr(f))
                elif any(isinstance(k, T) and any(z is phi for z in walk(k)) for k, _ in f):
                    R.unk('csv-field', where, 'look-up not recognised')
                else:
                    R.bad('csv-field', where, 'a field is taken in without looking for one of the same name', fstr(f))
            for st, v in outs:
                fd = fdec(st.facts, raw('found', x.a[0]))
                if fd == 1:
                    if is_err(v):
                        R.ok('csv-field', where, 'a second field of the same name is an error')
                    elif is_ok(v):
                        R.bad('csv-field', where, 'fields behind a second one of the same name are dropped without an error', facts_str(st))

    R.section('account', accounts)
    R.section('envelope', envelopes)
    R.section('envelope-taken-in', added)
    R.section('csv-field', fields)
