"""What an account has available, and where a movement of an envelope is booked.

Available: the pool returned is the formal sum of the account's real value and
minus both savings of every envelope of both kinds.  Booking: the partitions of
the operation that applies an amount to an envelope against the date rule."""
from ..base import *
from ..acc import *
from .. import pools, order as O

AV = 'account::Account::get_available_value'
AP = 'envelope::Envelope::apply_amount'


def F(t, *fs):
    for f in fs:
        t = raw('fld', t, f)
    return t


def run(ana, R):
    def available():
        ana.need_fields('account::Account', 'real_value', 'expense_envelopes', 'goal_envelopes')
        ana.need_fields('envelope::Envelope', 'next_amount', 'now_amount')
        s = ana.summ(AV, inline=(AV,), models=pools.models(), key='pools')
        a = Sym('P0')
        for st, v in s.outs:
            r = pools.parts(v)
            if r is None:
                R.unk('available', s.where, 'value not recognised: ' + pp(v)[:100])
                continue
            base, ps = r
            if base is F(a, 'real_value'):
                R.ok('available', s.where, 'starts from the real value of the account')
            elif base.op == 'agg' or base.op == 'fld':
                R.bad('available', s.where, 'what is available does not start from the real value but from ' + pp(base), facts_str(st))
                continue
            else:
                R.unk('available', s.where, 'base not recognised: ' + pp(base)[:100])
                continue
            lists = {F(a, 'expense_envelopes'): 'expense', F(a, 'goal_envelopes'): 'goal'}
            sums = {l: [] for l in lists}
            odd = False
            for p in ps:
                if p[0] == 'once':
                    R.unk('available', s.where, 'single amount in the sum: ' + pp(p[1])[:100])
                    odd = True
                    continue
                _, ac_, rows = p
                if cut_short(st, ac_.t.a[0]):
                    R.bad('available', s.where, 'the savings of the remaining envelopes are left out', facts_str(st))
                    odd = True
                    continue
                if leaves_out(ac_.lp.it):
                    R.bad('available', s.where, 'not every envelope is counted: ' + pp(ac_.lp.it), facts_str(st))
                    odd = True
                    continue
                sg = segs(ac_.lp.it)
                if sg is None or ac_.el is None or any(l not in lists for l, _ in sg):
                    R.unk('available', s.where, 'loop over ' + (pp(ac_.lp.it)[:100] if ac_.lp.it is not None else '?'))
                    odd = True
                    continue
                for l, _ in sg:
                    sums[l].append((ac_, rows))
            if odd:
                continue
            for l, what in lists.items():
                # every loop over the list contributes; the contributions of one element add up
                if not sums[l]:
                    empty = E.decide(st, Eq(raw('len', l), Int(0)))
                    if empty == 1:
                        continue
                    rel = [k for k in st.facts if isinstance(k, T) and k.op not in ('found',)]
                    if rel:
                        R.unk('available', s.where, '%s envelopes not counted on a path with %s' % (what, pp(rel[0])[:80]))
                    else:
                        R.bad('available', s.where, 'what is saved in %s envelopes is not subtracted' % what, facts_str(st))
                    continue
                combos = [([], Num(0), frozenset())]
                for ac_, rows in sums[l]:
                    nxt = []
                    for fs, tot, syms in combos:
                        for f, xs in rows:
                            t, sy = tot, set(syms)
                            for x in xs:
                                m, y = pools.fields_of(s.eng, x)
                                e_ = ac_.el
                                can = lambda z: subst(z, lambda w: Sym('EL') if w is e_ else None, {})
                                t, _ = add(t, can(m)), sy.add(can(y))
                            nxt.append((fs + [(f, ac_)], t, frozenset(sy)))
                    combos = nxt
                el = Sym('EL')
                exp = neg(add(F(el, 'next_amount', 'mag'), F(el, 'now_amount', 'mag')))
                for fs, tot, syms in combos:
                    facts = {}
                    for f, ac_ in fs:
                        for k, v_ in f:
                            k2 = subst(k, lambda w: el if w is ac_.el else None, {}) if isinstance(k, T) else k
                            facts[k2] = v_
                    known_sym = {F(el, x, 'symbol') for x in ('next_amount', 'now_amount', 'amount')}
                    eq, why = O.equal({k: v_ for k, v_ in facts.items() if isinstance(k, T) and k.op != 'more'}, tot, exp)
                    if not syms <= known_sym:
                        R.unk('available', s.where, 'currency not recognised')
                    elif eq:
                        R.ok('available', s.where, 'every %s envelope takes off both its savings' % what)
                    elif not all(x.op in ('fld', 'sym', 'lin', 'int', 'num', 'min', 'max', 'abs') for x in walk(tot)):
                        R.unk('available', s.where, 'contribution not recognised: ' + pp(tot)[:100])
                    else:
                        cond = [k for k in facts if isinstance(k, T) and k.op != 'more' and not all(x.op in ('fld', 'sym', 'int', 'num', 'lin', 'lt', 'eq', 'discr', 'len', 'not') for x in walk(k))]
                        if cond:
                            R.unk('available', s.where, 'condition not recognised: ' + pp(cond[0])[:100])
                        else:
                            R.bad('available', s.where, 'an %s envelope contributes %s to what is available, not %s' % (what, pp(tot), pp(exp)), fstr({k: v_ for k, v_ in facts.items()}))

    def booking():
        ana.need_fields('envelope::Envelope', 'next_amount', 'now_amount', 'last_transaction_date', 'freq')
        s = ana.summ(AP, opaque=('get_last_due_date',))
        e, amt, date = Sym('P0'), Sym('P1'), Sym('P2')
        fs = ana.adt('envelope::Envelope')['variants'][0]['fields']
        last = F(e, 'last_transaction_date')
        mag = F(amt, 'mag')
        due = fcall('envelope::Frequency::get_last_due_date', F(e, 'freq'))

        def spec(o):
            if o(Lt(mag, Num(0))):
                return 'now'
            if not o(Lt(Num(0), mag)):
                return 'none'
            if not o(Eq(discr(due), Int(1))):
                return 'next'
            return 'now' if o(Lt(date, payload(due))) else 'next'
        WORD = {'now': 'what is ready now', 'next': 'what is saved for the next due date', 'none': 'nothing'}
        for st, v in s.outs:
            m = ana.mem(st, 0)
            if m is None:
                R.unk('booking', s.where, 'the envelope is not changed in place')
                continue
            get = lambda f: m.a[2 + fs.index(f)] if m.op == 'agg' else raw('fld', m, f)
            ok_ops = {'fld', 'sym', 'lin', 'int', 'num', 'min', 'max', 'abs', 'agg', 'app', 'discr'}
            for exp, asked, s2 in outcomes(st, spec):
                for f, key in (('now_amount', 'now'), ('next_amount', 'next')):
                    g = get(f)
                    gm, gs = pools.fields_of(s.eng, g)
                    want = add(F(e, f, 'mag'), mag) if exp == key else F(e, f, 'mag')
                    eq, why = O.equal(s2.facts, gm, want)
                    if eq:
                        R.ok('booking', s.where, 'an amount goes to %s' % WORD[exp])
                    else:
                        judge('booking', s, s2, st, asked, gm, 'a movement that should change %s leaves %s at %s' % (WORD[exp], f, pp(gm)), ok_ops)
                    if gs is F(e, f, 'symbol') or gs is F(amt, 'symbol') or gs is F(e, 'amount', 'symbol'):
                        R.ok('booking', s.where, 'the currency stays')
                    else:
                        judge('booking', s, s2, st, asked, gs, 'the currency of %s becomes %s' % (f, pp(gs)), ok_ops)
                g = get('last_transaction_date')
                want = ac('max', last, date)
                eq, why = O.equal(s2.facts, g, want)
                if eq:
                    R.ok('changed-on', s.where, 'the day of the last change is kept')
                elif exp == 'none' and O.equal(s2.facts, g, last)[0]:
                    R.ok('changed-on', s.where, 'nothing changed')
                else:
                    judge('changed-on', s, s2, st, asked, g, 'the day of the last change becomes %s' % pp(g), ok_ops)
                for f in fs:
                    if f in ('now_amount', 'next_amount', 'last_transaction_date'):
                        continue
                    if get(f) is F(e, f):
                        R.ok('booking', s.where, 'the rest of the envelope is left alone')
                    else:
                        judge('booking', s, s2, st, asked, get(f), '%s becomes %s' % (f, pp(get(f))), ok_ops)

    def judge(rule, s, s2, st, asked, got, msg, ok_ops):
        rel = [r for a, _ in asked for r in related(st, a)]
        if rel:
            # the partition decides on something like the open condition: only the order domain may call it
            R.unk(rule, s.where, 'condition not recognised: ' + pp(rel[0])[:100]) if not order_only(rel) else R.bad(rule, s.where, msg, facts_str(s2))
        elif all(x.op in ok_ops for x in walk(got)):
            R.bad(rule, s.where, msg, facts_str(s2))
        else:
            R.unk(rule, s.where, 'not recognised: ' + pp(got)[:100])

    def order_only(rel):
        return all(x.op in ('lt', 'eq', 'fld', 'sym', 'int', 'num', 'app', 'discr') and not (x.op == 'app' and not x.a[0].endswith('get_last_due_date')) for r in rel for x in walk(r))

    R.section('available', available)
    R.section('booking', booking)
