"""Manual envelope postings.

In the value-flow summary of processing an entry for one envelope (the change of
an envelope is an event): a posting changes the envelope exactly if it is an
envelope posting naming its account and its name, in its currency, by the
posting's amount on the entry's date; one in another currency ends in an error;
inference happens only where the entry is known to have no envelope posting; and
an account hands every entry to each of its envelopes, a ledger to each account."""
from ..base import *
from ..acc import *
from .. import pools
from .c14 import variant
from .c16 import F

PE = 'envelope::Envelope::process_entry'
TAME = {'fld', 'sym', 'elem', 'k', 'hit', 'loop', 'loopval', 'discr', 'eq', 'lt', 'int', 'num', 'str', 'not', 'found', 'len', 'has', 'lin', 'app', 'more', 'setof'}
PARTLY = {'str::starts_with', 'str::ends_with', 'str::contains', 'str::eq_ignore_ascii_case'}


def weaker(st, asked):
    """Having a name as prefix, suffix, ... is weaker than being that name: (the conditions of that kind,
    whether they exclude what was assumed)"""
    def lens(k):
        return [x.a[0] for x in walk(k) if x.op == 'len']
    ts = [k for k in st.facts if isinstance(k, T)]
    part = [k for k in ts if k.op == 'app' and k.a[0] in PARTLY and all(x.op in TAME for y in k.a[1:] for x in walk(y))]
    pairs = [frozenset(k.a[1:3]) for k in part]
    if len(set(pairs)) != len(pairs) or any(l in q for k in ts for l in lens(k) for q in pairs):
        return [], False
    return part, any(val == 1 and any(a is Eq(k.a[1], k.a[2]) and E.decide(st, k) == 0 for k in part) for a, val in asked)


def summary(ana):
    ana.need_fields('envelope::Envelope', 'name', 'account', 'amount', 'auto_accounts')
    ana.need_fields('posting::EnvelopePosting', 'account_name', 'envelope_name', 'amount')
    ana.need_fields('entry::Entry', 'date', 'postings')
    ana.fn('envelope::Envelope::apply_amount')
    return ana.summ(PE, inline=(PE,), models=pools.env_models(), key='env')


def filtered(l):
    """A list made of the elements of another that pass a test: (source, [(facts, kept?)], element, loop) or None"""
    if l.op != 'loopval':
        return None
    c = comp(l)
    if c is None or not (c.init.op == 'vec' and not c.init.a):
        return None
    a = Acc(l)
    if a.el is None or not a.exact or a.start != 0:
        return None
    rows = []
    for f, adds in c.rows:
        if not adds:
            rows.append((f, False))
        elif len(adds) == 1 and adds[0] == ('elem', a.el):
            rows.append((f, True))
        else:
            return None
    return a.lst, rows, a.el, c.lp


def has_manual(ana, facts, postings, envd):
    """Does the partition know whether some posting is an envelope posting? 1 / 0 / None / '?' (looks at
    the postings in a way not understood)"""
    odd = None
    for k, v in facts.items():
        if not isinstance(k, T):
            continue
        if k.op == 'found':
            r = search_of(k)
            if r and r[0] is postings:
                el = raw('elem', postings, raw('k', r[2].depth))
                if len(r[1]) == 1 and r[1][0][0] is discr(el):
                    cont = r[1][0][1]
                    sees = fdec([r[1][0]], Eq(discr(el), envd))
                    if sees == 0:           # goes on past everything but envelope postings
                        return fdec(facts, k)
                    if sees == 1 and fdec(facts, k) == 0:       # goes on past envelope postings and nothing else
                        odd = 'only'
        l = k.a[0] if k.op == 'len' else None
        if l is not None:
            fl = filtered(l)
            if fl and fl[0] is postings:
                kept = {fdec(f, Eq(discr(fl[2]), envd)) for f, keep in fl[1] if keep}
                drop = {fdec(f, Eq(discr(fl[2]), envd)) for f, keep in fl[1] if not keep}
                if kept == {1} and drop <= {0}:
                    z = fdec(facts, Eq(k, Int(0)))
                    if z is not None:
                        return 1 - z
    return odd


def run(ana, R):
    def manual():
        s = summary(ana)
        e, ent = Sym('P0'), Sym('P1')
        posts, date = F(ent, 'postings'), F(ent, 'date')
        envd = variant(ana, 'posting::Posting', 'Envelope')
        n_manual = 0
        seen_err = False
        done = set()
        inferred = False
        for st, v in s.outs:
            facts = facts_str(st)
            known = has_manual(ana, st.facts, posts, envd)
            # what this path applies, and where
            app_out = [x for x in st.ev if x[0] == 'applied']
            loops = [x[1] for x in st.ev if x[0] == 'loop']
            ml = []
            for lt_ in loops:
                lp = loop_of(lt_)
                if any(x[0] == 'applied' for f, u, ev in lp.parts for x, _, _ in events(ev)):
                    ml.append(lt_)
            # loops leaving in error look at postings too
            infer_like = bool(app_out)
            inferred = inferred or infer_like
            if infer_like:
                if known == 'only':
                    R.bad('no-inference', s.where, 'a change is inferred from entries with no posting but envelope postings', facts)
                elif known == 0:
                    R.ok('no-inference', s.where, 'inferred only without envelope postings')
                elif known == 1:
                    R.bad('no-inference', s.where, 'an entry with an envelope posting is used to infer a change', facts)
                else:
                    odd = [k for k in st.facts if isinstance(k, T) and k.op in ('found', 'len') and understood(k, posts) is None]
                    part = [k for k in odd if k.op == 'found' and loop_of(k.a[0]).it is not None and leaves_out(loop_of(k.a[0]).it)
                            and any(x is posts for x in walk(loop_of(k.a[0]).it)) and not loop_of(k.a[0]).inits and len(loop_of(k.a[0]).parts) == 1]
                    if odd and len(part) == len(odd):
                        R.bad('no-inference', s.where, 'a change is inferred when only some of the postings are known not to be envelope postings: ' + pp(loop_of(part[0].a[0]).it)[:80], facts)
                    elif odd:
                        R.unk('no-inference', s.where, 'condition not recognised: ' + pp(odd[0])[:100])
                    else:
                        R.bad('no-inference', s.where, 'a change is inferred without knowing that the entry has no envelope posting', facts)
            if known == 1 and is_ok(v) and not ml:
                R.bad('applied', s.where, 'an entry with envelope postings is not applied', facts)
            for lt_ in ml:
                n_manual += 1
                lp = loop_of(lt_)
                if lp.it is not None and leaves_out(lp.it):
                    R.bad('applied', s.where, 'envelope postings are passed over: ' + pp(lp.it), facts)
                    continue
                r = rows_of(lp, posts)
                if r is None:
                    R.unk('applied', s.where, 'loop over ' + (pp(lp.it)[:80] if lp.it is not None else '?'))
                    continue
                el, pre = r
                if lt_ not in done:
                    done.add(lt_)
                    if pre:
                        for f, keep in pre[1]:
                            if keep:
                                continue
                            for exp, asked, s2 in outcomes(fstate(f), lambda o: spec(o, e, pre[2], envd)):
                                if exp in ('apply', 'err'):
                                    verdict_row(s, f, asked, 'an envelope posting naming this envelope is left out', 'applied')
                                else:
                                    R.ok('applied', s.where, 'only other postings are left out')
                    for f, u, ev in lp.parts:
                        evs = [x for x, _, _ in events(ev) if x[0] == 'applied']
                        f2 = dict(f)
                        if pre:
                            inc = [fx for fx, keep in pre[1] if keep]
                            if len(inc) == 1:
                                for k, w in inc[0]:
                                    if isinstance(k, T) and k.op != 'more':
                                        k2 = subst(k, lambda y: el if y is pre[2] else None, {})
                                        f2.setdefault(k2, w)
                        st2 = fstate(f2)
                        for exp, asked, s2 in outcomes(st2, lambda o: spec(o, e, el, envd)):
                            if exp == 'apply':
                                if len(evs) == 1:
                                    check_event(s, evs[0], el, date, f2)
                                elif not evs:
                                    verdict_row(s, f2, asked, 'an envelope posting naming this envelope does not change it', 'applied')
                                else:
                                    R.bad('applied', s.where, 'an envelope posting changes its envelope %d times' % len(evs), fstr(f2))
                            elif exp == 'err':
                                verdict_row(s, f2, asked, 'an envelope posting in another currency is not an error', 'currency')
                            elif evs:
                                verdict_row(s, f2, asked, 'a posting that does not name this envelope changes it', 'only-named')
                            else:
                                R.ok('only-named', s.where, 'other postings change nothing')
                if cut_short(st, lt_):
                    hit = subst(el, lambda y: raw('hit', lt_) if y.op == 'k' and y.a[0] == lp.depth else None, {})
                    for exp, asked, s2 in outcomes(st, lambda o: spec(o, e, hit, envd)):
                        if is_err(v) and exp == 'err':
                            R.ok('currency', s.where, 'an envelope posting in another currency is an error')
                            seen_err = True
                        elif is_err(v):
                            verdict_row(s, st.facts, asked, 'an envelope posting that should %s is an error' % ('change the envelope' if exp == 'apply' else 'not matter'), 'applied')
                        elif is_ok(v):
                            verdict_row(s, st.facts, asked, 'postings after this one are not applied', 'applied')
        if n_manual and not inferred and any(is_ok(v) for st, v in s.outs) and not any(x[0] == 'loop' and (loop_of(x[1]).it is None or rows_of(loop_of(x[1]), posts) is None) for st, v in s.outs for x in st.ev):
            R.bad('inference', s.where, 'a change is never inferred from an entry')
        if not n_manual:
            R.unk('applied', s.where, 'no loop applying envelope postings found')

    def understood(k, posts):
        return True if not any(x is posts for x in walk(k)) and not (k.op == 'found' and any(x is posts for x in walk(loop_of(k.a[0]).it or k))) else \
            (True if k.op == 'found' and not ambiguous(k) else None)

    def ambiguous(k):
        """A search whose condition may amount to the presence of an envelope posting."""
        lp = loop_of(k.a[0])
        return any(x.op == 'discr' for f, u, ev in lp.parts for kk, _ in f if isinstance(kk, T) for x in walk(kk)) and not lp.inits and len(lp.parts) == 1

    def rows_of(lp, posts):
        lst, start, exact = base_it(lp.it)
        if lst is None or start != 0:
            return None
        el = E.elem_of(lst, raw('k', lp.depth))
        if lst is posts:
            return el, None
        fl = filtered(lst)
        if fl and fl[0] is posts:
            return el, fl
        return None

    def spec(o, e, el, envd):
        if not o(Eq(discr(el), envd)):
            return 'none'
        p = raw('fld', el, 'Envelope.0')
        if not o(Eq(F(p, 'account_name'), F(e, 'account'))):
            return 'none'
        if not o(Eq(F(p, 'envelope_name'), F(e, 'name'))):
            return 'none'
        return 'apply' if o(Eq(F(p, 'amount', 'symbol'), F(e, 'amount', 'symbol'))) else 'err'

    def check_event(s, x, el, date, facts):
        amt = F(raw('fld', el, 'Envelope.0'), 'amount')
        m, y = pools.fields_of(s.eng, x[1])
        me, ye = F(amt, 'mag'), F(amt, 'symbol')
        if x[1] is amt or m is me and (y is ye or fdec(facts, Eq(y, ye)) == 1):
            R.ok('applied', s.where, 'changed by the amount of the posting')
        elif all(z.op in TAME or z.op in ('agg', 'abs', 'min', 'max', 'mul') for z in walk(x[1])):
            R.bad('applied', s.where, 'the envelope changes by %s, not by the amount of the posting' % pp(x[1]), fstr(facts))
        else:
            R.unk('applied', s.where, 'amount not recognised: ' + pp(x[1])[:80])
        if x[2] is date:
            R.ok('applied', s.where, 'on the date of the entry')
        elif all(z.op in TAME for z in walk(x[2])):
            R.bad('applied', s.where, 'the change is dated %s, not as the entry' % pp(x[2]), fstr(facts))
        else:
            R.unk('applied', s.where, 'date not recognised: ' + pp(x[2])[:80])

    def verdict_row(s, facts, asked, msg, rule):
        st = fstate(facts)
        rel = [r for a, _ in asked for r in related(st, a)]
        part, cannot = weaker(st, asked)
        if cannot:
            R.ok(rule, s.where, 'cannot happen')
            return
        odd = [k for k in st.facts if isinstance(k, T) and k not in part and not all(x.op in TAME for x in walk(k))]
        rel = [r for r in rel if r not in part]
        if odd or rel and not all(all(x.op in TAME - {'app', 'found'} for x in walk(r)) for r in rel):
            R.unk(rule, s.where, 'condition not recognised: ' + pp((odd or rel)[0])[:100])
        else:
            R.bad(rule, s.where, msg, fstr(facts))

    def handed_on():
        """Every envelope of an account sees every entry of the ledger."""
        P = 'account::Account::process_entry'
        ana.need_fields('account::Account', 'expense_envelopes', 'goal_envelopes')
        s = ana.summ(P, inline=(P,), opaque=(PE,), models=pools.models(), key='pools')
        a = Sym('P0')
        want = {F(a, 'expense_envelopes'): 'expense', F(a, 'goal_envelopes'): 'goal'}
        for st, v in s.outs:
            if not is_ok(v):
                continue
            got = {}
            odd = False
            for x in st.ev:
                if x[0] != 'loop':
                    continue
                lp = loop_of(x[1])
                evs = [(f, [y for y, _, _ in events(ev) if y[0] == PE]) for f, u, ev in lp.parts]
                if not any(ys for _, ys in evs):
                    continue
                ls = mut_lists(lp.it)
                if ls is None and not leaves_out(lp.it):
                    odd = True
                    R.unk('handed-on', s.where, 'loop over ' + (pp(lp.it)[:80] if lp.it is not None else '?'))
                    continue
                if leaves_out(lp.it):
                    R.bad('handed-on', s.where, 'not every envelope sees the entry: ' + pp(lp.it), facts_str(st))
                    odd = True
                    continue
                if cut_short(st, x[1]):
                    R.bad('handed-on', s.where, 'the remaining envelopes do not see the entry', facts_str(st))
                    odd = True
                    continue
                for f, ys in evs:
                    cond = [k for k, _ in f if isinstance(k, T) and k.op not in ('more', 'seg') and not (k.op == 'discr' and k.a[0].op == 'app' and k.a[0].a[0] == PE)]
                    if len(ys) == 1:
                        if ys[0][2] is not Sym('P1'):
                            R.unk('handed-on', s.where, 'not the entry itself: ' + pp(ys[0][2])[:60])
                        else:
                            R.ok('handed-on', s.where, 'the envelope sees the entry')
                    elif len(ys) > 1:
                        R.bad('handed-on', s.where, 'an envelope sees the entry %d times' % len(ys), fstr(f))
                    elif cond and not all(all(z.op in TAME for z in walk(k)) for k in cond):
                        R.unk('handed-on', s.where, 'passed over under ' + pp(cond[0])[:80])
                    elif cond and any('account' in pp(k) or 'postings' in pp(k) for k in cond):
                        R.unk('handed-on', s.where, 'passed over under ' + pp(cond[0])[:80])
                    else:
                        R.bad('handed-on', s.where, 'an envelope does not see the entry', fstr(f))
                for l in ls:
                    got[l] = got.get(l, 0) + 1
            if odd:
                continue
            for l, what in want.items():
                if got.get(l) == 1:
                    R.ok('handed-on', s.where, 'every %s envelope sees the entry' % what)
                elif got.get(l, 0) > 1:
                    R.bad('handed-on', s.where, '%s envelopes see the entry twice' % what, facts_str(st))
                else:
                    conds = [k for k in st.facts if isinstance(k, T) and k.op != 'found']
                    if conds:
                        R.unk('handed-on', s.where, '%s envelopes do not see the entry under %s' % (what, facts_str(st)))
                    else:
                        R.bad('handed-on', s.where, '%s envelopes do not see the entry' % what, facts_str(st))

    def every_account():
        """Every entry taken into the ledger is handed to every account first."""
        AP = 'account::Account::process_entry'
        P = 'ledger::Ledger::parse_chunk'
        ana.need_fields('ledger::Ledger', 'entries', 'accounts')
        fs = ana.adt('ledger::Ledger')['variants'][0]['fields']
        s = ana.summ(P, inline=(P,), opaque=('add_from_file', AP))
        ent0 = F(Sym('P0'), 'entries')
        n = 0
        for st, v in s.outs:
            m = ana.mem(st, 0)
            if not is_ok(v) or m is None or m.op != 'agg':
                continue
            ents = m.a[2 + fs.index('entries')]
            for x in [y.a[1] for y in walk(ents) if y.op == 'push']:
                n += 1
                seen = []
                for ev in st.ev:
                    if ev[0] == AP and ev[2] is x:
                        seen.append(None)
                    if ev[0] != 'loop':
                        continue
                    lp = loop_of(ev[1])
                    rows = [(f, [y for y, _, _ in events(pe) if y[0] == AP and y[2] is x]) for f, u, pe in lp.parts]
                    if any(ys for _, ys in rows):
                        seen.append((ev[1], lp, rows))
                if not seen:
                    R.bad('every-account', s.where, 'an entry is taken into the ledger without being handed to the accounts', facts_str(st))
                    continue
                for w in seen:
                    if w is None:
                        R.unk('every-account', s.where, 'handed to a single account')
                        continue
                    lt_, lp, rows = w
                    whole = lp.it is not None and (lp.it.op == 'itmv' and lp.it.a[2] == 0 and fidx(lp.it) == fs.index('accounts') or any(y is F(Sym('P0'), 'accounts') for y in walk(lp.it)) and not leaves_out(lp.it))
                    if lp.it is not None and leaves_out(lp.it):
                        R.bad('every-account', s.where, 'not every account sees the entry: ' + pp(lp.it), facts_str(st))
                    elif cut_short(st, lt_):
                        R.bad('every-account', s.where, 'the remaining accounts do not see the entry', facts_str(st))
                    elif not whole:
                        R.unk('every-account', s.where, 'loop over ' + (pp(lp.it)[:80] if lp.it is not None else '?'))
                    else:
                        for f, ys in rows:
                            cond = [k for k, _ in f if isinstance(k, T) and k.op != 'more' and not (k.op == 'discr' and k.a[0].op == 'app' and k.a[0].a[0] == AP)]
                            if len(ys) == 1:
                                R.ok('every-account', s.where, 'every account sees the entry')
                            elif len(ys) > 1:
                                R.bad('every-account', s.where, 'an account sees the entry %d times' % len(ys), fstr(f))
                            elif not_named(f) == 1:
                                R.ok('every-account', s.where, 'an account the entry does not name need not see it')
                            elif not cond or all(all(z.op in TAME | {'at', 'keys', 'phi'} for z in walk(k)) for k in cond) and not any(y is x for k in cond for y in walk(k)) and not any('envelopes' in pp(k) for k in cond):
                                R.bad('every-account', s.where, 'an account does not see the entry', fstr(f))
                            else:
                                R.unk('every-account', s.where, 'passed over under ' + pp(cond[0])[:80])
                if len(seen) > 1 and all(seen):
                    R.bad('every-account', s.where, 'the accounts see the entry %d times' % len(seen), facts_str(st))
        if not n:
            R.unk('every-account', s.where, 'no entry taken into the ledger found')

    def fidx(it):
        p = it.a[0].a[1] if it.a[0].op == 'ref' else ()
        return p[0][3] if len(p) == 1 and p[0][0] == 'f' else None

    def mut_lists(it):
        """Lists of the account an iterator of mutable references runs over."""
        if it is None:
            return None
        if it.op == 'itm':
            r = it.a[0]
            if r.op == 'ref' and r.a[0] == ('arg', 0) and len(r.a[1]) == 1:
                f = r.a[1][0]
                fs = ana.adt('account::Account')['variants'][0]['fields']
                if f[0] == 'f':
                    return [F(Sym('P0'), fs[f[3]])]
            return None
        if it.op == 'ichain':
            a, b = mut_lists(it.a[0]), mut_lists(it.a[1])
            return None if a is None or b is None else a + b
        if it.op in ('irev', 'ienum', 'iinspect', 'ifilter'):
            return mut_lists(it.a[0])
        return None

    R.section('manual', manual)
    R.section('handed-on', handed_on)
    R.section('every-account', every_account)
