"""Amounts of different currencies are never mixed.

Each operator of amounts and of pools of amounts is summarised from its body and
compared, partition by partition, with the sum it stands for: magnitudes are
combined only where the currencies are known to be equal; a pool changes the one
amount of that currency or gains one where the search over the whole pool found
none; merging does so for every amount; choosing, testing for zero and showing
look at every amount."""
from ..base import *
from ..acc import *
from .. import pools
from .c16 import F
import re

AOP = re.compile(r'<amount::Amount as std::ops::(AddAssign|SubAssign|Add|Sub)(?:<&?amount::Amount>)?>::\w+$')
SMALL = Fraction(1, 10**4)
TAME = {'fld', 'sym', 'elem', 'k', 'hit', 'loop', 'loopval', 'discr', 'eq', 'lt', 'int', 'num', 'not', 'found', 'len', 'lin', 'phi', 'more', 'agg', 'abs', 'vec', 'push', 'withe', 'str', 'mul', 'min', 'max'}


def tame(t):
    return all(x.op in TAME for x in walk(t))


def tfacts(f):
    return all(tame(k) for k in (f if not isinstance(f, frozenset) else [x for x, _ in f]) if isinstance(k, T))


def run(ana, R):
    ana.need_fields('amount::Amount', 'mag', 'symbol')
    fs = ana.adt('amount::AmountPool')['variants'][0]['fields']
    if len(fs) != 1:
        raise Missing('AmountPool with one field')
    names = [i['name'].replace('silverfox::', '') for i in ana.p.local]

    def fields(s, t):
        return pools.fields_of(s.eng, t)

    def list_of_pool(t):
        return t.a[2] if t.op == 'agg' else F(t, fs[0])

    # ---------------------------------------------------- two amounts
    def amounts():
        n = 0
        for name in names:
            m = AOP.match(name)
            if not m:
                continue
            n += 1
            s = ana.summ(name, inline=(name, *[x for x in names if x.startswith('<amount::')]))
            a, b = Sym('P0'), Sym('P1')
            sign = 1 if m.group(1).startswith('Add') else -1
            for st, v in s.outs:
                r = ana.mem(st, 0) if m.group(1).endswith('Assign') else v
                if r is None:
                    R.unk('amounts', s.where, 'result not found')
                    continue
                mag, sym = fields(s, r)
                exp = add(F(a, 'mag'), F(b, 'mag')) if sign > 0 else sub(F(a, 'mag'), F(b, 'mag'))
                same = E.decide(st, Eq(F(a, 'symbol'), F(b, 'symbol')))
                if not tame(r) or not tfacts(st.facts):
                    R.unk('amounts', s.where, 'result not recognised: ' + pp(r)[:80])
                elif same != 1:
                    if mag is F(a, 'mag') and sym is F(a, 'symbol') and num(sub(exp, mag)) == 0:
                        continue
                    rel = related(st, Eq(F(a, 'symbol'), F(b, 'symbol')))
                    if same is None and rel:
                        R.unk('amounts', s.where, 'condition not recognised: ' + pp(rel[0])[:80])
                    else:
                        R.bad('amounts', s.where, '%s combines amounts without their currencies being equal' % m.group(1), facts_str(st))
                elif mag is not exp and num(sub(mag, exp)) != 0:
                    R.bad('amounts', s.where, '%s gives %s instead of %s' % (m.group(1), pp(mag), pp(exp)), facts_str(st))
                elif sym not in (F(a, 'symbol'), F(b, 'symbol')):
                    R.bad('amounts', s.where, '%s gives the currency %s' % (m.group(1), pp(sym)), facts_str(st))
                else:
                    R.ok('amounts', s.where, 'the exact sum or difference, for equal currencies only')
        for name in names:
            if re.match(r'<amount::Amount as std::ops::Neg>::neg$', name):
                s = ana.summ(name, inline=(name,))
                for st, v in s.outs:
                    mag, sym = fields(s, v)
                    if mag is neg(F(Sym('P0'), 'mag')) and sym is F(Sym('P0'), 'symbol'):
                        R.ok('amounts', s.where, 'the same amount with the opposite sign')
                    elif tame(v) and tfacts(st.facts):
                        R.bad('amounts', s.where, 'the opposite of an amount is ' + pp(v), facts_str(st))
                    else:
                        R.unk('amounts', s.where, 'result not recognised: ' + pp(v)[:80])
        if not n:
            R.unk('amounts', 'src/amount.rs', 'no operators on amounts found')

    def comparisons():
        a, b = Sym('P0'), Sym('P1')
        same = Eq(F(a, 'symbol'), F(b, 'symbol'))
        less, eq = Lt(F(a, 'mag'), F(b, 'mag')), Eq(F(a, 'mag'), F(b, 'mag'))
        for name in names:
            if re.match(r'<amount::Amount as std::cmp::Ord>::cmp$', name):
                s = ana.summ(name, inline=(name,))
                for st, v in s.outs:
                    if E.decide(st, same) != 1:
                        if related(st, same):
                            R.unk('comparisons', s.where, 'condition not recognised')
                        else:
                            R.bad('comparisons', s.where, 'amounts of different currencies are compared', facts_str(st))
                        continue
                    for exp, asked, s2 in outcomes(st, lambda o: 0 if o(less) else 1 if o(eq) else 2):
                        got = v.a[1] if v.op == 'agg' else None
                        if got is None:
                            R.unk('comparisons', s.where, 'result not recognised: ' + pp(v)[:80])
                        elif got == exp:
                            R.ok('comparisons', s.where, 'by magnitude, for equal currencies only')
                        elif any(related(st, x) for x, _ in asked):
                            R.unk('comparisons', s.where, 'condition not recognised')
                        else:
                            R.bad('comparisons', s.where, 'amounts are put in the wrong order', facts_str(st))
            elif re.match(r'<amount::Amount as std::cmp::PartialEq>::eq$', name):
                s = ana.summ(name, inline=(name,))
                for st, v in s.outs:
                    for s2, val in s.eng.split_bool(st.copy(), v):
                        for exp, asked, s3 in outcomes(s2, lambda o: 1 if o(eq) and o(same) else 0):
                            if exp == val:
                                R.ok('comparisons', s.where, 'equal in magnitude and currency')
                            elif any(related(s2, x) for x, _ in asked) or not tfacts(s2.facts):
                                R.unk('comparisons', s.where, 'condition not recognised')
                            else:
                                R.bad('comparisons', s.where, 'amounts that differ count as equal, or the reverse', facts_str(s2))

    # ---------------------------------------------------- pools
    def whole_search(f, lst, sym):
        """The partition knows whether some amount of the list has the currency: (0 / 1, element) or None"""
        for k, w in (f.items() if isinstance(f, dict) else f):
            if isinstance(k, T) and k.op == 'found':
                r = fdec(f, k)
                lp = loop_of(k.a[0])
                l, start = mlist(lp.it)
                if l is not lst or r is None:
                    continue
                if start != 0 or leaves_out(lp.it):
                    yield ('partial', lp, k)
                    continue
                el = raw('elem', lst, raw('k', lp.depth))
                yield (r, lp, k, el)
        z = fdec(f, Eq(raw('len', lst), Int(0)))
        if z == 1:
            yield ('empty', None, None)

    def mlist(it):
        """list an iterator (also of mutable references) runs over, from where"""
        if it is None:
            return None, None
        if it.op == 'itm':
            c = it.a[0]
            if c.op == 'ref':
                # the location of the pool in hand
                return CUR[0], it.a[1] if isinstance(it.a[1], int) else num(it.a[1])
        if it.op in ('ienum', 'ipeek', 'iinspect'):
            return mlist(it.a[0])
        l, start, exact = base_it(it)
        return l, start if exact else None
    CUR = [None]

    def check_add(rule, s, f, lst, amt, sign, res, shown):
        """lst plus (minus) amt is res, in a partition with facts f"""
        CUR[0] = lst

        def pos(x):
            return raw('hit', x.a[0]) if x.op == 'hitpos' and mlist(loop_of(x.a[0]).it) == (lst, 0) else None
        res = subst(res, pos, {})
        f = {subst(k, pos, {}) if isinstance(k, T) else k: w for k, w in (f.items() if isinstance(f, dict) else f)}
        mag, sym = fields(s, amt)
        smag = mag if sign > 0 else neg(mag)
        known = list(whole_search(f, lst, sym))
        none = full = False
        hits = []
        for kn in known:
            if kn[0] == 'empty':
                none = True
            elif kn[0] == 0:
                lp, el = kn[1], kn[3]
                if all(fdec(fp, Eq(F(el, 'symbol'), sym)) == 0 for fp, u, ev in lp.parts):
                    none = True
            elif kn[0] == 1:
                hits.append(raw('hit', kn[2].a[0]))
        if not tame(res) or not tfacts(f):
            R.unk(rule, s.where, 'result not recognised: ' + pp(res)[:90])
            return
        zero = fdec(f, Eq(mag, Num(0))) == 1
        if res is lst:
            if zero:
                R.ok(rule, s.where, 'adding nothing changes nothing')
            else:
                R.bad(rule, s.where, 'an amount is not counted', shown)
            return
        l, out = res, []
        if res.op == 'push' and res.a[0] is lst or res.op == 'vec' and lst.op == 'vec' and res.a[:-1] == lst.a:
            x = res.a[-1]
            xm, xs = fields(s, x)
            if xm is not smag and num(sub(xm, smag)) != 0:
                R.bad(rule, s.where, 'the first amount of a currency is kept as %s, not %s' % (pp(xm), pp(smag)), shown)
            elif xs is not sym:
                R.bad(rule, s.where, 'the first amount of a currency is kept in %s' % pp(xs), shown)
            elif none or lst.op == 'vec' and not lst.a:
                R.ok(rule, s.where, 'a new currency gets its own amount')
            elif any(kn[0] == 'partial' for kn in known):
                R.bad(rule, s.where, 'not every amount is looked at before a new one is added', shown)
            else:
                R.bad(rule, s.where, 'a currency can get a second amount', shown)
            return
        if res.op == 'withe' and res.a[0] is lst:
            i, x = res.a[1], res.a[2]
            el = raw('elem', lst, i)
            xm, xs = fields(s, x)
            same = fdec(f, Eq(F(el, 'symbol'), sym))
            if same != 1:
                rel = [] if same == 0 else related(fstate(f), Eq(F(el, 'symbol'), sym))
                if rel and not all(r.op == 'eq' for r in rel):
                    R.unk(rule, s.where, 'condition not recognised: ' + pp(rel[0])[:80])
                else:
                    R.bad(rule, s.where, 'an amount is added to an amount of another currency', shown)
            elif xm is not add(F(el, 'mag'), smag) and num(sub(xm, add(F(el, 'mag'), smag))) != 0:
                R.bad(rule, s.where, 'the amount becomes %s, not %s' % (pp(xm), pp(add(F(el, 'mag'), smag))), shown)
            elif xs not in (F(el, 'symbol'), sym):
                R.bad(rule, s.where, 'the amount changes its currency to ' + pp(xs), shown)
            else:
                R.ok(rule, s.where, 'the amount of that currency changes by it')
            return
        R.unk(rule, s.where, 'result not recognised: ' + pp(res)[:90])

    def pool_ops():
        n = 0
        inl = [x for x in names if x.startswith('<amount::')]
        for name in names:
            m = pools.OP.match(name)
            if not m:
                continue
            n += 1
            s = ana.summ(name, inline=(name, *inl))
            kind, rhs = m.group(1), m.group(2) or 'AmountPool'
            sign = 1 if kind.startswith('Add') else -1
            p, b = Sym('P0'), Sym('P1')
            for st, v in s.outs:
                r = ana.mem(st, 0) if kind.endswith('Assign') else v
                if r is None:
                    r = p
                shown = facts_str(st)
                if rhs == 'Amount':
                    check_add('pool', s, st.facts, F(p, fs[0]), b, sign, list_of_pool(r), shown)
                    continue
                res = list_of_pool(r)
                a = acc(res)
                if a is None:
                    if res is F(p, fs[0]) and E.decide(st, Eq(raw('len', F(b, fs[0])), Int(0))) == 1:
                        R.ok('merge', s.where, 'nothing to merge')
                    elif res is F(p, fs[0]) and not st.facts:
                        R.bad('merge', s.where, 'nothing is merged', shown)
                    else:
                        R.unk('merge', s.where, 'result not recognised: ' + pp(res)[:80])
                    continue
                if a.lst is not F(b, fs[0]) and not (a.lst is not None and a.lst.op in ('take', 'from') and a.lst.a[0] is F(b, fs[0]) and leaves_out(a.lp.it)):
                    R.unk('merge', s.where, 'loop over ' + (pp(a.lst)[:80] if a.lst is not None else '?'))
                    continue
                if leaves_out(a.lp.it) or cut_short(st, res.a[0]):
                    R.bad('merge', s.where, 'not every amount is merged', shown)
                    continue
                if a.init is not F(p, fs[0]) or a.start != 0 or not a.exact:
                    R.unk('merge', s.where, 'starts from ' + pp(a.init)[:80])
                    continue
                for f, u in a.rows:
                    check_add('merge', s, dict(f), a.phi, a.el, sign, u, fstr(f))
            for f, k, tr, d in s.panics:
                if tfacts(f.facts) and (k.startswith('panic') or k.startswith('unwrap')):
                    R.bad('pool', s.where, 'adding an amount to a pool can end in a crash', facts_str(f))
        for name in names:
            if pools.FROM.match(name):
                s = ana.summ(name, inline=(name, *inl))
                for st, v in s.outs:
                    l = list_of_pool(v)
                    check_add('pool', s, st.facts, raw('vec'), Sym('P0'), 1, l, facts_str(st))
        if not n:
            R.unk('pool', 'src/amount.rs', 'no operators on pools found')

    def looks():
        s = ana.summ('amount::AmountPool::only', inline=('amount::AmountPool::only',))
        lst, sym = F(Sym('P0'), fs[0]), Sym('P1')
        CUR[0] = lst
        for st, v in s.outs:
            mag, y = fields(s, v)
            shown = facts_str(st)
            known = list(whole_search(st.facts, lst, sym))
            if not tame(v) or not tfacts(st.facts):
                R.unk('choose', s.where, 'result not recognised: ' + pp(v)[:80])
                continue
            if mag.op == 'fld' and mag.a[1] == 'mag' and mag.a[0].op == 'elem' and mag.a[0].a[0] is lst:
                el = mag.a[0]
                if E.decide(st, Eq(F(el, 'symbol'), sym)) != 1:
                    R.bad('choose', s.where, 'the amount of another currency is chosen', shown)
                elif y not in (F(el, 'symbol'), sym):
                    R.bad('choose', s.where, 'the amount is given in ' + pp(y), shown)
                else:
                    R.ok('choose', s.where, 'the amount of that currency')
            elif num(mag) == 0:
                if any(kn[0] == 'empty' or kn[0] == 0 and all(fdec(fp, Eq(F(kn[3], 'symbol'), sym)) == 0 for fp, u, ev in kn[1].parts) for kn in known):
                    R.ok('choose', s.where, 'nothing only where no amount has that currency')
                else:
                    R.bad('choose', s.where, 'nothing is given though the pool may have an amount of that currency', shown)
            else:
                R.bad('choose', s.where, 'the amount chosen is ' + pp(v), shown)
        s = ana.summ('amount::AmountPool::is_zero', inline=('amount::AmountPool::is_zero',))
        for st, v in s.outs:
            for s2, val in s.eng.split_bool(st.copy(), v):
                shown = facts_str(s2)
                if not tfacts(s2.facts):
                    R.unk('zero', s.where, 'condition not recognised')
                    continue
                known = list(whole_search(s2.facts, lst, sym))
                if val == 1:
                    ok = any(kn[0] == 'empty' or kn[0] == 0 and all(is0(fp, F(kn[3], 'mag')) for fp, u, ev in kn[1].parts) for kn in known)
                    if ok:
                        R.ok('zero', s.where, 'zero only if every amount is')
                    else:
                        R.bad('zero', s.where, 'a pool with something in it counts as zero', shown)
                else:
                    hit = [raw('elem', lst, raw('hit', kn[2].a[0])) for kn in known if kn[0] == 1]
                    if any(E.decide(s2, Eq(F(h, 'mag'), Num(0))) == 0 or any(k.op == 'lt' and any(y is F(h, 'mag') for y in walk(k)) for k in s2.facts if isinstance(k, T)) for h in hit):
                        R.ok('zero', s.where, 'not zero if some amount is not')
                    else:
                        R.bad('zero', s.where, 'a pool of zeros does not count as zero', shown)

    def is0(f, m):
        if fdec(f, Eq(m, Num(0))) == 1:
            return True
        for k, w in f:
            if isinstance(k, T) and k.op == 'lt' and fdec(f, k) == 1 and k.a[0] is absv(m) and num(k.a[1]) is not None and num(k.a[1]) <= SMALL:
                return True
        return False

    def shown():
        name = '<amount::AmountPool as std::fmt::Display>::fmt'
        s = ana.summ(name, inline=(name,))
        lst = F(Sym('P0'), fs[0])
        CUR[0] = lst
        for st, v in s.outs:
            if not is_ok(v):
                continue
            t = ana.mem(st, 1)
            if t is None:
                t = Sym('P1')
            f = facts_str(st)
            n = E.decide(st, Eq(raw('len', lst), Int(0)))
            parts = [x for x in walk(t) if x.op == 'show']
            if n == 1:
                R.ok('shown', s.where, 'an empty pool')
                continue
            lv = [x for x in walk(t) if x.op == 'loopval' and acc(x) is not None and acc(x).lst is lst]
            if lv:
                a = acc(lv[0])
                if leaves_out(a.lp.it) or cut_short(st, lv[0].a[0]):
                    R.bad('shown', s.where, 'not every amount is shown', f)
                elif a.start != 0 or not a.exact:
                    R.unk('shown', s.where, 'loop over ' + pp(a.lp.it)[:80])
                else:
                    for fr, u in a.rows:
                        k = sum(1 for x in u.a if isinstance(x, T) and x.op == 'show' and x.a[-1] is a.el) if u.op == 'cat' else 0
                        cond = [q for q, _ in fr if isinstance(q, T) and q.op != 'more']
                        if k == 1:
                            R.ok('shown', s.where, 'every amount is shown')
                        elif not tame(u) and u.op != 'cat' or any(not tame(q) for q in cond):
                            R.unk('shown', s.where, 'text not recognised')
                        elif any(is0(fr, F(a.el, 'mag')) for _ in [0]):
                            R.ok('shown', s.where, 'an amount of nothing is left out')
                        else:
                            R.bad('shown', s.where, 'an amount is shown %d times' % k, fstr(fr))
            elif E.decide(st, Eq(raw('len', lst), Int(1))) == 1:
                if len(parts) == 1 and parts[0].a[-1] is raw('elem', lst, Int(0)):
                    R.ok('shown', s.where, 'the only amount is shown')
                elif all(x.op in TAME | {'show', 'cat'} for x in walk(t)):
                    R.bad('shown', s.where, 'the only amount is not shown', f)
                else:
                    R.unk('shown', s.where, 'text not recognised')
            elif all(x.op in TAME | {'show', 'cat'} for x in walk(t)) and tfacts(st.facts):
                R.bad('shown', s.where, 'amounts are left out', f)
            else:
                R.unk('shown', s.where, 'text not recognised: ' + pp(t)[:80])

    R.section('amounts', amounts)
    R.section('comparisons', comparisons)
    R.section('pool', pool_ops)
    R.section('looks', looks)
    R.section('shown', shown)
