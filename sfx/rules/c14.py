"""Automatic filling: how much is moved into one envelope.

The partitions of the filling posting are compared with the amount the property
allows, as terms in the order domain (min, max and differences of what the
envelope holds, what it wants and what the account has available)."""
from ..base import *
from .. import pools, order as O

FN = 'envelope::Envelope::get_filling_posting'


def env_fields(ana):
    ana.need_fields('envelope::Envelope', 'amount', 'next_amount', 'now_amount', 'last_transaction_date', 'funding', 'name', 'account')
    ana.need_fields('amount::Amount', 'mag', 'symbol')
    ana.need_fields('posting::EnvelopePosting', 'account_name', 'envelope_name', 'amount')


def variant(ana, adt, name):
    vs = [v['name'] for v in ana.adt(adt)['variants']]
    if name not in vs:
        raise Missing('%s::%s' % (adt, name))
    return Int(E.ENUM_DISCR[('silverfox::' + adt, vs.index(name))])


def part(t, adt, field, ana):
    fs = ana.adt(adt)['variants'][0]['fields']
    return t.a[2 + fs.index(field)] if t.op == 'agg' else raw('fld', t, field)


LEAF = {'fld', 'pmag', 'div', 'app', 'int', 'num', 'lin', 'min', 'max', 'abs', 'sym', 'mul', 'conv'}


def run(ana, R):
    def amount():
        env_fields(ana)
        s = ana.summ(FN, inline=(FN,), opaque=('get_next_due_date',), models=pools.models(), key='pools')
        e, pool = Sym('P0'), Sym('P1')
        F = lambda t, *fs: F(raw('fld', t, fs[0]), *fs[1:]) if fs else t
        want, nxt, now = (F(e, f, 'mag') for f in ('amount', 'next_amount', 'now_amount'))
        sym = F(e, 'amount', 'symbol')
        syms = [F(e, f, 'symbol') for f in ('amount', 'next_amount', 'now_amount')]
        due = fcall('envelope::Envelope::get_next_due_date', e)
        fund = discr(F(e, 'funding'))
        man, agg, con = (variant(ana, 'envelope::FundingMethod', x) for x in ('Manual', 'Aggressive', 'Conservative'))
        # savings for the next date are only ever added to (C16), so nothing less than zero
        known = [O.le(Num(0), nxt)]
        missing = sub(want, nxt)
        saved = add(nxt, now)
        for st, v in s.outs:
            todays = [x for k in list(st.facts) + [v] if isinstance(k, T) for x in walk(k) if x.op == 'app' and x.a[0].endswith('now')]
            today = todays[0] if todays else None
            facts = facts_str(st)
            amt = part(v, 'posting::EnvelopePosting', 'amount', ana)
            for f, exp in (('account_name', F(e, 'account')), ('envelope_name', F(e, 'name'))):
                got = part(v, 'posting::EnvelopePosting', f, ana)
                if got is exp:
                    R.ok('own-envelope', s.where, 'the movement names its own envelope')
                elif got.op in ('fld', 'str'):
                    R.bad('own-envelope', s.where, 'the movement has the wrong %s: %s' % (f, pp(got)), facts)
                else:
                    R.unk('own-envelope', s.where, 'name not recognised: ' + pp(got)[:80])
            cur = part(amt, 'amount::Amount', 'symbol', ana)
            if cur in syms or E.decide(st, Eq(cur, sym)) == 1:
                R.ok('own-currency', s.where, 'the movement is in the envelope\'s currency')
            elif cur is NONE or cur.op == 'str':
                R.bad('own-currency', s.where, 'the movement is not in the envelope\'s currency: ' + pp(cur), facts)
            else:
                R.unk('own-currency', s.where, 'currency not recognised: ' + pp(cur)[:80])
            mag = part(amt, 'amount::Amount', 'mag', ana)
            avails = [x for x in walk(mag) if x.op == 'pmag' and x.a[0] is pool] + \
                     [x for k in st.facts if isinstance(k, T) for x in walk(k) if x.op == 'pmag' and x.a[0] is pool]
            avail = avails[0] if avails else raw('pmag', pool, sym)
            if any(x.a[1] not in syms for x in avails):
                R.bad('bounded', s.where, 'what is available is looked up in another currency than the envelope\'s', facts)
                continue
            mag = subst(mag, lambda y: avail if y in avails else None, {})
            if not all(x.op in LEAF for x in walk(mag)):
                R.unk('amount', s.where, 'amount not recognised: ' + pp(mag)[:120])
                continue

            def check(rule, st, exp, what):
                ok, why = O.equal(st.facts, mag, exp, known)
                if ok:
                    R.ok(rule, s.where, what)
                else:
                    strange = [k for k in st.facts if isinstance(k, T) and not tame(k)]
                    if strange:
                        R.unk(rule, s.where, 'condition not recognised: ' + pp(strange[0])[:80])
                    else:
                        R.bad(rule, s.where, '%s, but it moves %s' % (what, pp(mag)), facts_str(st))

            def tame(k):
                if k.op == 'discr' and (k is fund or k.a[0] is due):
                    return True
                if k.op in ('discr', 'len', 'eq') and all(x.op in ('discr', 'len', 'eq', 'fld', 'sym', 'int', 'str') for x in walk(k)) \
                        and not any(x.op == 'fld' and x.a[1] in ('freq', 'starting_date') for x in walk(k)):
                    return True
                if k.op in ('eq', 'lt'):
                    return all(x.op in LEAF or x is k for x in walk(k))
                return k.op in ('fld', 'lin', 'pmag', 'min', 'max', 'div', 'app') or k.op == 'not' and tame(k.a[0])

            def spec(o):
                if not o(Eq(discr(due), Int(1))):
                    return 'nothing', 'an envelope without a next due date gets nothing'
                if today is None:
                    # never looks at today: may already have been changed today
                    return 'today', ''
                if o(Eq(today, F(e, 'last_transaction_date'))):
                    return 'nothing', 'an envelope already changed today gets nothing'
                if o(Eq(fund, man)):
                    return 'nothing', 'an envelope with manual funding gets nothing'
                if o(Eq(fund, agg)):
                    return 'agg', 'aggressive funding moves what is missing, as far as it is available'
                if not o(Eq(fund, con)):
                    raise Infeasible()
                return 'con', 'conservative funding moves what is missing divided by the days left, as far as it is available'
            for (kind, what), asked, s2 in outcomes(st, spec):
                if kind == 'nothing':
                    check('nothing', s2, Num(0), what)
                elif kind == 'today':
                    if O.equal(s2.facts, mag, Num(0), known)[0]:
                        R.ok('nothing', s.where, 'nothing is moved')
                    else:
                        R.bad('nothing', s.where, 'money is moved without looking whether the envelope was already changed today', facts)
                elif kind == 'agg':
                    check('aggressive', s2, ac('max', ac('min', missing, avail), neg(saved), Num(0)), what)
                else:
                    days = [x for x in walk(mag) if x.op == 'app' and x.a[0].endswith('num_days')]
                    d = [x for x in days if x.a[1].op == 'app' and x.a[1].a[0].endswith('signed_duration_since') and
                         x.a[1].a[1] is payload(due) and x.a[1].a[2] is today]
                    if days and not d and all(x.a[1].op == 'app' and x.a[1].a[0].endswith('signed_duration_since') and all(known_date(y, today) for y in x.a[1].a[1:]) for x in days):
                        R.bad('conservative', s.where, what + ', but the days are counted as ' + pp(days[0]), facts)
                        continue
                    if not d:
                        # perhaps it does not divide at all
                        if not any(x.op in ('app', 'div') for x in walk(mag)):
                            check('conservative', s2, ac('max', ac('min', raw('div', missing, raw('sym', 'days left')), missing, avail), neg(saved), Num(0)), what)
                        else:
                            R.unk('conservative', s.where, 'days left not recognised: ' + pp(mag)[:120])
                        continue
                    check('conservative', s2, ac('max', ac('min', div(missing, d[0]), missing, avail), neg(saved), Num(0)), what)
        # nothing else is moved on other paths: a panic is C04's business

    def known_date(t, today):
        return t is today or all(x.op in ('fld', 'sym', 'app') for x in walk(t))

    def dated():
        """The generated entry carries today's date, so that the envelopes it changed count as changed today."""
        fn = 'ledger::Ledger::fill_envelopes'
        s = ana.summ(fn, inline=(fn,), models=pools.models(), key='pools')
        n = 0
        for st, v in s.outs:
            for x in {x for e, _, _ in events(st.ev) for t in e if isinstance(t, T) for x in walk(t) if x.op == 'agg' and x.a[0] == 'silverfox::entry::Entry'}:
                n += 1
                d = part(x, 'entry::Entry', 'date', ana)
                if d.op == 'app' and d.a[0].endswith('now'):
                    R.ok('dated-today', s.where, 'the generated entry is dated today')
                elif all(y.op in ('fld', 'sym', 'elem', 'app', 'int', 'loopval', 'loop', 'phi', 'lastof', 'after', 'hit') for y in walk(d)):
                    R.bad('dated-today', s.where, 'the generated entry is dated %s' % pp(d), facts_str(st))
                else:
                    R.unk('dated-today', s.where, 'date not recognised: ' + pp(d)[:80])
        if not n:
            R.unk('dated-today', s.where, 'no generated entry found')

    R.section('amount', amount)
    R.section('dated-today', dated)
