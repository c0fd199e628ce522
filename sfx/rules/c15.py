"""Filling the envelopes of an account in turn.

The loop (or loops) that collect the filling postings of an account: what each
iteration passes to the envelope as available, what it takes off it, what it
collects, and in which order it visits which envelopes; and that the movements
of every account end up in the generated entry."""
from ..base import *
from ..acc import *
from .. import pools, order as O
from .c16 import F

FP = 'account::Account::get_filling_postings'
GP = 'envelope::Envelope::get_filling_posting'
AV = 'account::Account::get_available_value'
FE = 'ledger::Ledger::fill_envelopes'


def run(ana, R):
    def posting_amount(x):
        """Amount term of a posting made from a filling posting."""
        if x.op == 'agg' and x.a[0] == 'silverfox::posting::Posting' and len(x.a) == 3:
            x = x.a[2]
        return raw('fld', x, 'amount'), x

    def turn():
        ana.need_fields('account::Account', 'expense_envelopes', 'goal_envelopes')
        s = ana.summ(FP, inline=(FP,), opaque=(GP, AV), models=pools.models(), key='pools')
        a = Sym('P0')
        ex, go = F(a, 'expense_envelopes'), F(a, 'goal_envelopes')
        order = {(go, True): 0, (ex, True): 1}
        for st, v in s.outs:
            facts = facts_str(st)
            av0 = fcall(AV, a)
            avail = av0           # what is available before the next loop
            chain = []
            t = v
            while t.op == 'loopval':
                chain.append(t)
                t = dict(loop_of(t.a[0]).inits).get(t.a[1])
                if t is None:
                    raise Unknown('loop without an initial value')
            if not (t.op == 'vec' and not t.a):
                if t.op in ('vec', 'push', 'fld'):
                    R.unk('collected', s.where, 'postings start from ' + pp(t)[:80])
                    continue
                raise Unknown('postings not recognised: ' + pp(t)[:80])
            chain.reverse()
            visited = []
            bad = False
            for t in chain:
                if cut_short(st, t.a[0]):
                    R.bad('every-envelope', s.where, 'the remaining envelopes are not filled', facts)
                    bad = True
                    continue
                lp = loop_of(t.a[0])
                if leaves_out(lp.it):
                    R.bad('every-envelope', s.where, 'not every envelope gets its turn: ' + pp(lp.it), facts)
                    bad = True
                    continue
                sg = segs(lp.it)
                if sg is None or any(l not in (ex, go) for l, _ in sg):
                    raise Unknown('loop over ' + (pp(lp.it)[:80] if lp.it is not None else '?'))
                visited += sg
                c = comp(t)
                if c is None:
                    raise Unknown('collected postings not recognised')
                # the location holding what is available: the pool passed to the envelope
                calls = [e for f, u, ev in lp.parts for e, _, _ in events(ev) if e[0] == GP]
                if not calls:
                    raise Unknown('no filling posting in the loop')
                el = Acc(t).el
                for f, u, ev in lp.parts:
                    row = fstr(f)
                    cs = [e for e, _, _ in events(ev) if e[0] == GP]
                    adds = next(x for f2, x in c.rows if f2 is f)
                    if not cs:
                        strange = [k for k, _ in f if isinstance(k, T) and k.op != 'more' and not all(x.op in ('fld', 'sym', 'elem', 'k', 'concat', 'int', 'num', 'eq', 'lt', 'discr', 'len', 'app', 'not', 'pmag', 'phi', 'lin') for x in walk(k))]
                        if strange or any('funding' in pp(k) or 'freq' in pp(k) or 'pmag' in pp(k) or 'last_transaction_date' in pp(k) for k, _ in f if isinstance(k, T)):
                            R.unk('every-envelope', s.where, 'an envelope is passed over under ' + str(row)[:100])
                        else:
                            R.bad('every-envelope', s.where, 'an envelope is passed over', row)
                        continue
                    for e in cs:
                        if e[1] is not el:
                            R.unk('every-envelope', s.where, 'not the envelope of this turn: ' + pp(e[1])[:80])
                    e = cs[0]
                    pool = e[2]
                    gp = raw('app', *e[:3])
                    amt = raw('fld', gp, 'amount')
                    if pool.op == 'phi' and pool.a[0] == lp.depth:
                        key = pool.a[1]
                        init = dict(lp.inits).get(key)
                        upd = dict(u).get(key, pool)
                    elif not any(x.op == 'phi' for x in walk(pool)):
                        R.bad('running', s.where, 'the envelopes do not see what the ones before them took: each is offered ' + pp(pool), row)
                        continue
                    else:
                        R.unk('running', s.where, 'offered pool not recognised: ' + pp(pool)[:80])
                        continue
                    if init is avail:
                        R.ok('running', s.where, 'the first envelope sees what the account has available')
                    elif init is av0 or init.op == 'fld' or init.op == 'agg':
                        R.bad('running', s.where, 'filling starts from %s, not from what is left' % pp(init)[:80], row)
                        continue
                    else:
                        R.unk('running', s.where, 'starts from ' + pp(init)[:80])
                        continue
                    base, xs = pools.flat(upd)
                    if base is not pool:
                        R.unk('running', s.where, 'what is left not recognised: ' + pp(upd)[:80])
                        continue
                    tot = Num(0)
                    for x in xs:
                        tot = add(tot, pools.fields_of(s.eng, x)[0])
                    m = F(amt, 'mag')
                    fs = {k: w for k, w in f if isinstance(k, T) and k.op != 'more'}
                    eq, _ = O.equal(fs, tot, neg(m))
                    plainly = all(x.op in ('fld', 'app', 'elem', 'sym', 'k', 'concat', 'lin', 'phi', 'int', 'num', 'min', 'max', 'abs', 'agg') for x in walk(tot))
                    strange = [k for k in fs if not all(x.op in ('fld', 'app', 'elem', 'sym', 'k', 'concat', 'lin', 'phi', 'int', 'num', 'lt', 'eq', 'not', 'discr', 'reversed') for x in walk(k))]
                    if any(pools.fields_of(s.eng, x)[1] is not F(amt, 'symbol') for x in xs):
                        R.unk('running', s.where, 'currency of the change not recognised')
                    elif eq:
                        R.ok('running', s.where, 'what an envelope gets is no longer available to the next')
                    elif plainly and not strange:
                        R.bad('running', s.where, 'after an envelope got %s, what is available changes by %s' % (pp(m), pp(tot)), row)
                    else:
                        R.unk('running', s.where, 'change of what is available not recognised: ' + pp(tot)[:80])
                    n = [x for kd, x in adds if kd == 'elem' and (x is gp or posting_amount(x)[1] is gp)]
                    if len(adds) == len(n) == 1:
                        R.ok('collected', s.where, 'the movement of every envelope is collected once')
                    elif not adds:
                        if O.equal(fs, m, Num(0))[0]:
                            R.ok('collected', s.where, 'only empty movements are dropped')
                        elif strange:
                            R.unk('collected', s.where, 'dropped under ' + pp(strange[0])[:80])
                        else:
                            R.bad('collected', s.where, 'a movement is dropped', row)
                    elif len(n) > 1:
                        R.bad('collected', s.where, 'a movement is collected %d times' % len(n), row)
                    else:
                        R.unk('collected', s.where, 'collected: ' + pp(adds[0][1])[:80])
                # for the loop after this one
                keys = {e[2].a[1] for f, u, ev in lp.parts for e, _, _ in events(ev) if e[0] == GP and e[2].op == 'phi'}
                if len(keys) == 1:
                    avail = raw('loopval', t.a[0], next(iter(keys)))
            if bad:
                continue
            for l, what in ((ex, 'expense'), (go, 'goal')):
                n = sum(1 for x, _ in visited if x is l)
                if n == 1:
                    R.ok('every-envelope', s.where, 'every %s envelope gets one turn' % what)
                elif n > 1:
                    R.bad('every-envelope', s.where, '%s envelopes get their turn %d times' % (what, n), facts)
                elif E.decide(st, Eq(raw('len', l), Int(0))) == 1:
                    pass
                elif [k for k in st.facts if isinstance(k, T) and k.op != 'found']:
                    R.unk('every-envelope', s.where, '%s envelopes get no turn under %s' % (what, facts))
                else:
                    R.bad('every-envelope', s.where, '%s envelopes get no turn' % what, facts)
            if len(visited) == 2 and len({l for l, _ in visited}) == 2:
                R.check(visited == [(go, True), (ex, True)], 'order', s.where,
                        'goals before expenses, later ones first' if visited == [(go, True), (ex, True)] else
                        'envelopes get their turn in the order ' + ', '.join('%s%s' % (pp(l), ' backwards' if b else '') for l, b in visited), facts)

    def all_accounts():
        s = ana.summ(FE, inline=(FE,), models=pools.models(), key='pools')
        acc_ = F(Sym('P0'), 'accounts')
        seen = 0
        for st, v in s.outs:
            ents = {x for e, _, _ in events(st.ev) for t in e if isinstance(t, T) for x in walk(t) if x.op == 'agg' and x.a[0] == 'silverfox::entry::Entry'}
            fs = ana.adt('entry::Entry')['variants'][0]['fields']
            lists = {x.a[2 + fs.index('postings')] for x in ents}
            if not ents:
                # nothing generated: the list must be known empty
                cand = [k.a[0] for k in st.facts if isinstance(k, T) and k.op == 'len' and k.a[0].op == 'loopval' and E.decide(st, Eq(k, Int(0))) == 1]
                lists = set(cand[:1])
            for l in lists:
                seen += 1
                steps = []
                t = l
                short = [x for x in {k.a[0] for k in st.facts if isinstance(k, T) and k.op == 'found'} if cut_short(st, x) and base_it(loop_of(x).it)[0] is not None and any(y is acc_ for y in walk(base_it(loop_of(x).it)[0]))]
                short = [x for x in short if any(y.op == 'app' and y.a[0] == FP for f, u, ev in loop_of(x).parts for _, z in u if isinstance(z, T) for y in walk(z))]
                if short and not is_err(v):
                    R.bad('all-accounts', s.where, 'the remaining accounts are left out', facts_str(st))
                    continue
                if t.op == 'app' and t.a[0] in ('vec::dedup', 'vec::dedup_by', 'vec::dedup_by_key', 'vec::truncate') and t.a[1].op == 'loopval' or t.op == 'take' and num(t.a[1]) is not None and t.a[0].op == 'loopval':
                    R.bad('all-accounts', s.where, 'movements are left out: ' + pp(t, 3), facts_str(st))
                    continue
                if t.op != 'loopval':
                    raise Unknown('postings not recognised')
                while t.op == 'loopval':
                    c = comp(t)
                    if c is None:
                        raise Unknown('postings not recognised')
                    steps.append((t, c))
                    if cut_short(st, t.a[0]):
                        R.bad('all-accounts', s.where, 'the remaining accounts or movements are left out', facts_str(st))
                    if leaves_out(c.lp.it):
                        R.bad('all-accounts', s.where, 'some are passed over: ' + pp(c.lp.it), facts_str(st))
                    src = c.src[0]
                    if src is not None and src.op == 'loopval' and c.init.op == 'vec' and not c.init.a:
                        t = src
                        continue
                    break
                t, c = steps[-1]
                src = c.src[0]
                while src is not None and src.op in ('values', 'keys', 'list'):
                    src = src.a[0]
                if src is not acc_:
                    raise Unknown('loop over ' + pp(c.src[0])[:80])
                # innermost: one account's movements per iteration
                for f, adds in c.rows:
                    conds = [k for k, _ in f if isinstance(k, T) and k.op != 'more']
                    if len(adds) == 1 and adds[0][0] == 'many' and adds[0][1].op == 'app' and adds[0][1].a[0] == FP:
                        R.ok('all-accounts', s.where, 'the movements of every account are kept')
                    elif not adds and conds and all(all(x.op in ('fld', 'at', 'elem', 'keys', 'sym', 'k', 'len', 'eq', 'lt', 'discr', 'int', 'str', 'not', 'app') for x in walk(k)) for k in conds) and not any('get_filling_postings' in pp(k) or 'envelopes' in pp(k) for k in conds):
                        R.bad('all-accounts', s.where, 'an account is passed over', fstr(f))
                    elif not adds and not conds:
                        R.bad('all-accounts', s.where, 'the movements of the accounts are lost', fstr(f))
                    else:
                        R.unk('all-accounts', s.where, 'collected: %s under %s' % (pp(adds[0][1])[:60] if adds else 'nothing', fstr(f)))
                # outer ones: only empty movements are dropped
                for t, c in steps[:-1]:
                    el = Acc(t).el
                    for f, adds in c.rows:
                        fs_ = {k: w for k, w in f if isinstance(k, T) and k.op != 'more'}
                        d = fdec(f, Eq(discr(el), Int(0)))
                        if len(adds) == 1 and adds[0] == ('elem', el):
                            R.ok('only-empty-dropped', s.where, 'a movement is kept')
                            continue
                        if adds:
                            R.unk('only-empty-dropped', s.where, 'changed: ' + pp(adds[0][1])[:80])
                            continue
                        vs = [x['name'] for x in ana.adt('posting::Posting')['variants']]
                        envd = Int(E.ENUM_DISCR[('silverfox::posting::Posting', vs.index('Envelope'))])
                        if fdec(f, Eq(discr(el), envd)) == 0:
                            R.ok('only-empty-dropped', s.where, 'not an envelope posting: never generated')
                            continue
                        m = F(raw('fld', el, 'Envelope.0'), 'amount', 'mag')
                        mine = [k for k in fs_ if any(x is el for x in walk(k))]
                        if O.equal(fs_, m, Num(0))[0]:
                            R.ok('only-empty-dropped', s.where, 'an empty movement is dropped')
                        elif all(x.op in ('fld', 'elem', 'loopval', 'loop', 'k', 'discr', 'eq', 'lt', 'int', 'num', 'lin', 'abs', 'not', 'min', 'max', 'sym') for k in mine for x in walk(k)):
                            R.bad('only-empty-dropped', s.where, 'a movement that is not empty is dropped', fstr(f))
                        else:
                            R.unk('only-empty-dropped', s.where, 'dropped under ' + str(fstr(f))[:100])
        if not seen:
            R.unk('all-accounts', s.where, 'no generated entry found')

    R.section('turn', turn)
    R.section('all-accounts', all_accounts)
