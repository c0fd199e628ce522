"""A blank posting takes exactly what balances its entry.

The amount inferred for a blank posting is recognised as an accumulator over the
ordinary postings and compared row by row with minus their amounts (with mixed
currencies: minus their native values); every report must add that amount for a
blank posting, judged in the same loops as ordinary postings; an envelope's sums
likewise."""
from ..base import *
from ..acc import *
from .. import moves, pools
from ..moves import GB, TAME, tame
from .c08 import V, in_list
from .c14 import variant
from .c16 import F

MX = 'entry::Entry::has_mixed_currencies'


def run(ana, R):
    v = V(ana)
    ana.need_fields('posting::ClassicPosting', 'cost_assertion', 'account')
    ent = Sym('P0')
    posts = F(ent, 'postings')

    def has_amount(o, el):
        return o(v.classic(el)) and o(v.some(el))

    def native(o, el):
        """value in native currency, or None"""
        if not o(Eq(discr(v.sym(el)), Int(1))):
            return v.mag(el)
        c = F(raw('fld', el, 'Classic.0'), 'cost_assertion')
        if not o(Eq(discr(c), Int(1))):
            return None
        c = raw('fld', c, 'Some.0')
        if o(Eq(discr(c), variant(ana, 'posting::Cost', 'TotalCost'))):
            b = raw('fld', c, 'TotalCost.0')
            return None if o(Eq(discr(F(b, 'symbol')), Int(1))) else F(b, 'mag')
        b = raw('fld', c, 'UnitCost.0')
        return None if o(Eq(discr(F(b, 'symbol')), Int(1))) else mul(v.mag(el), F(b, 'mag'))

    # ------------------------------------------------ searches over the postings
    def search(k, facts, stops):
        """found(loop)=0 over all postings means: none satisfies `stops`"""
        if not (isinstance(k, T) and k.op == 'found' and fdec(facts, k) == 0):
            return False
        lp = loop_of(k.a[0])
        l, start, exact = base_it(lp.it)
        if l is not posts or start != 0 or not exact or leaves_out(lp.it):
            return False
        el = E.elem_of(l, raw('k', lp.depth))
        for f, u, ev in lp.parts:
            if any(r for r, _, _ in outcomes(fstate(f), lambda o: 1 if stops(o, el) else 0)):
                return False
        return True

    def searches(facts):
        return [k for k in facts if isinstance(k, T) and k.op == 'found' and fdec(facts, k) == 0 and contains_loop(k)]

    def contains_loop(k):
        lp = loop_of(k.a[0])
        l, start, exact = base_it(lp.it)
        return l is not None and moves.base_list(l) is posts

    def no_amount(facts):
        return any(search(k, facts, has_amount) for k in facts)

    def no_blank(facts):
        return any(search(k, facts, lambda o, el: o(v.classic(el)) and not o(v.some(el))) for k in facts)

    # ------------------------------------------------ the sum
    def compare(a, spec, drop):
        out = []
        for f, d in a.deltas():
            st = fstate(f)
            for exp, asked, s2 in outcomes(st, lambda o: spec(o, a.el)):
                if exp == 'err':
                    out.append((False, 'a posting without a value in native currency is passed over', f))
                    continue
                e = neg(exp)
                if d is e or num(sub(d, e)) == 0 or E.decide(s2, Eq(d, e)) == 1:
                    out.append((True, None, f))
                    continue
                rel = [r for x, _ in asked for r in related(st, x) if r.op != 'more' and not sym_fact(r)]
                if rel or not plain(d) or not all(tame(k) for k, _ in f if isinstance(k, T)):
                    out.append((None, pp((rel or [d])[0]), f))
                else:
                    out.append((False, 'a posting adds %s where %s balances it' % (pp(d), pp(e)), f))
        return out

    def sym_fact(r):
        return r.op == 'eq' and all(v.el_of_sym(x) is not None for x in r.a if isinstance(x, T))

    def plainspec(o, el):
        return v.mag(el) if has_amount(o, el) else Num(0)

    def nativespec(o, el):
        if not has_amount(o, el):
            return Num(0)
        r = native(o, el)
        return 'err' if r is None else r

    def covers(a, st):
        """the accumulator starts at 0 over all postings, or with one posting over the ones after it where the
        ones before contribute nothing: True / False / None, why"""
        init = num(a.init)
        l = a.lst
        if l is None:
            return None, 'loop over ?'
        if a.start == 0 and l is posts:
            if leaves_out(a.lp.it):
                return False, 'not every posting is counted: ' + pp(a.lp.it)
            if not a.exact:
                return None, 'loop over ' + pp(a.lp.it)[:80]
            return (True, None) if init == 0 else (False, 'it starts at ' + pp(a.init)) if plain(a.init) else (None, 'starts at ' + pp(a.init)[:60])
        if l is posts and isinstance(a.start, T) and a.start.op == 'after':
            lt_ = a.start.a[0]
            lp = loop_of(lt_)
            l2, s2, ex = base_it(lp.it)
            if l2 is not posts or s2 != 0 or leaves_out(lp.it):
                return None, 'search over ' + (pp(lp.it)[:80] if lp.it is not None else '?')
            el = E.elem_of(posts, raw('k', lp.depth))
            hit = subst(el, lambda y: raw('hit', lt_) if y.op == 'k' else None, {})
            for f, u, ev in lp.parts:
                if any(r for r, _, _ in outcomes(fstate(f), lambda o: 1 if has_amount(o, el) else 0)):
                    return False, 'postings before the first one counted are passed over'
            if a.init is neg(v.mag(hit)):
                return True, None
            if plain(a.init):
                return False, 'it starts at %s' % pp(a.init)
            return None, 'starts at ' + pp(a.init)[:60]
        if leaves_out(a.lp.it):
            return False, 'not every posting is counted: ' + pp(a.lp.it)
        return None, 'loop over ' + pp(a.lp.it)[:80]

    def inference():
        s = ana.summ(GB, inline=(GB,), opaque=(MX,))
        ana.fn(MX)
        mixed = fcall(MX, ent)
        n = 0
        for st, val in s.outs:
            shown = facts_str(st)
            mx = E.decide(st, mixed)
            if is_err(val):
                errors(s, st, mx, shown)
                continue
            if not is_ok(val):
                R.unk('inference', s.where, 'neither Ok nor Err: ' + pp(val)[:60])
                continue
            o = payload_ok(val)
            p = None if o.op == 'agg' and o.a[1] == 0 else payload(o)
            if p is None:
                if no_blank(st.facts):
                    R.ok('inference', s.where, 'nothing only where no posting is blank')
                elif searches(st.facts) and not all(known_search(k) for k in searches(st.facts)) or not all(tame(k) for k in st.facts if isinstance(k, T)):
                    R.unk('inference', s.where, 'condition not recognised')
                else:
                    R.bad('inference', s.where, 'no amount is inferred though a posting may be blank', shown)
                continue
            mag, sym = pools.fields_of(s.eng, p)
            n += 1
            if num(mag) is not None:
                if num(mag) == 0 and no_amount(st.facts):
                    R.ok('inference', s.where, 'nothing to balance')
                elif any(search_like(k) for k in searches(st.facts)) and not all(known_search(k) for k in searches(st.facts)):
                    R.unk('inference', s.where, 'condition not recognised')
                else:
                    R.bad('inference', s.where, 'a blank posting takes %s whatever the other postings are' % pp(mag), shown)
                continue
            sign = 1
            a = acc(mag)
            if a is None and acc(neg(mag)) is not None:
                a, sign = acc(neg(mag)), -1
            if a is None or a.el is None:
                # a closed form over single postings
                if mag.op in ('lin', 'fld') and plain(mag) and not any(x.op == 'loopval' for x in walk(mag)):
                    if single(st, mag):
                        R.ok('inference', s.where, 'minus the only amount')
                    else:
                        R.bad('inference', s.where, 'a blank posting takes %s, whatever the other postings are' % pp(mag), shown)
                else:
                    R.unk('inference', s.where, 'amount not recognised: ' + pp(mag)[:80])
                continue
            if sign < 0:
                a.rows = [(f, neg(u)) for f, u in a.rows]
                a.init, a.phi = neg(a.init), neg(a.phi)
            if cut_short(st, a.t.a[0]):
                R.bad('inference', s.where, 'the postings after one are not counted', shown)
                continue
            c, why = covers(a, st)
            if c is None:
                R.unk('inference', s.where, why)
                continue
            if not c:
                R.bad('inference', s.where, why, shown)
                continue
            spec = plainspec if mx == 0 else nativespec if mx == 1 else None
            ps, ns = compare(a, plainspec, None), compare(a, nativespec, None)
            isp, isn = all(x[0] for x in ps), all(x[0] for x in ns)
            if spec is None:
                if isp and all_same(a):
                    R.ok('inference', s.where, 'minus the sum of amounts of one currency')
                else:
                    R.unk('inference', s.where, 'whether the currencies are mixed is not known')
                continue
            rs = ps if spec is plainspec else ns
            bad = [x for x in rs if x[0] is False]
            if bad:
                R.bad('inference', s.where, bad[0][1], shown + fstr(bad[0][2]))
                continue
            if not all(x[0] for x in rs):
                R.unk('inference', s.where, 'row not recognised: ' + [x[1] for x in rs if x[0] is None][0][:80])
                continue
            R.ok('inference', s.where, 'minus the sum of the %s of the other ordinary postings' % ('amounts' if spec is plainspec else 'native values'))
            # the currency
            if spec is nativespec:
                if sym.op == 'agg' and sym.a[1] == 0:
                    R.ok('currency', s.where, 'native values add up in native currency')
                elif sym.op in ('agg', 'fld'):
                    R.bad('currency', s.where, 'a sum of native values is given in ' + pp(sym), shown)
                else:
                    R.unk('currency', s.where, 'currency not recognised: ' + pp(sym)[:60])
            else:
                el = v.el_of_sym(sym)
                if el is not None and in_list(el, posts) and E.decide(st, v.classic(el)) == 1 and E.decide(st, v.some(el)) == 1:
                    R.ok('currency', s.where, 'in the currency of the others')
                elif sym.op == 'agg':
                    R.bad('currency', s.where, 'the amount is given in %s, whatever the currency of the others' % pp(sym), shown)
                else:
                    R.unk('currency', s.where, 'currency not recognised: ' + pp(sym)[:60])
        if not n:
            R.unk('inference', s.where, 'no amount is inferred')

    def search_like(k):
        return True

    def known_search(k):
        """fully interpreted: its rows are about kinds and presence of amounts only"""
        lp = loop_of(k.a[0])
        return all(q.op in ('more', 'discr') for f, u, ev in lp.parts for q, _ in f if isinstance(q, T))

    def single(st, mag):
        return False

    def all_same(a):
        """every row that adds knows its currency to be that of the first"""
        return all(any(sym_fact(k) and w == ('=', 1) for k, w in f if isinstance(k, T)) for f, d in a.deltas() if num(d) != 0)

    def errors(s, st, mx, shown):
        if mx == 0:
            if all(tame(k) for k in st.facts if isinstance(k, T)):
                R.bad('errors', s.where, 'a blank posting among amounts of one currency is refused', shown)
            else:
                R.unk('errors', s.where, 'condition not recognised')
            return
        for k in st.facts:
            if isinstance(k, T) and k.op == 'found' and E.decide(st, k) == 1:
                lp = loop_of(k.a[0])
                l, start, exact = base_it(lp.it)
                if l is not posts:
                    continue
                hit = subst(E.elem_of(l, raw('k', lp.depth)), lambda y: raw('hit', k.a[0]) if y.op == 'k' else None, {})
                if E.decide(st, v.some(hit)) != 1:
                    continue
                for exp, asked, s2 in outcomes(st, lambda o: nativespec(o, hit)):
                    if exp == 'err':
                        R.ok('errors', s.where, 'refused only for a posting without a native value')
                    elif any(related(st, x) for x, _ in asked):
                        R.unk('errors', s.where, 'condition not recognised')
                    else:
                        R.bad('errors', s.where, 'refused though every posting has a native value', shown)
                return
        R.unk('errors', s.where, 'refused under ' + '; '.join(shown)[:90])

    # ------------------------------------------------ mixed currencies
    def mixed():
        s = ana.summ(MX, inline=(MX,))
        for st, val in s.outs:
            for s2, b in s.eng.split_bool(st.copy(), val):
                shown = facts_str(s2)
                facts = s2.facts
                if b == 1:
                    pair = [k for k in facts if sym_fact_t(k) and E.decide(s2, k) == 0 and all(has_am(s2, v.el_of_sym(x)) for x in k.a)]
                    if pair:
                        R.ok('mixed', s.where, 'two ordinary amounts differ in currency')
                    elif any(k.op == 'len' or k.op == 'lt' for k in facts if isinstance(k, T)) and any(contains(k, lambda y: y.op == 'loopval') for k in facts if isinstance(k, T)):
                        R.unk('mixed', s.where, 'condition not recognised')
                    else:
                        R.bad('mixed', s.where, 'currencies count as mixed where no two ordinary amounts are known to differ', shown)
                    continue
                if no_amount(facts) or E.decide(s2, Eq(raw('len', posts), Int(0))) == 1:
                    R.ok('mixed', s.where, 'no amounts, nothing mixed')
                    continue
                if sets(facts):
                    R.unk('mixed', s.where, 'condition not recognised')
                    continue
                ok = odd = None
                for k in facts:
                    if not (isinstance(k, T) and k.op == 'found' and fdec(facts, k) == 0):
                        continue
                    lp = loop_of(k.a[0])
                    l, start, exact = base_it(lp.it)
                    if l is None or moves.base_list(l) is not posts:
                        continue
                    if start == 0:
                        el = E.elem_of(l, raw('k', lp.depth))
                    elif isinstance(start, T) and start.op == 'after':
                        el = E.elem_of(raw('from', l, start), raw('k', lp.depth))
                    elif isinstance(start, int) and start > 0 and not any(contains(q, lambda y: y is E.elem_of(l, Int(0))) for q in facts if isinstance(q, T)):
                        continue            # the first is not looked at here, nor by itself
                    else:
                        odd = k
                        continue
                    if leaves_out(lp.it) and start == 0:
                        continue
                    good = True
                    for f, u, ev in lp.parts:
                        if not any(r for r, _, _ in outcomes(fstate(f), lambda o: 1 if has_amount(o, el) else 0)):
                            continue
                        if not any(sym_fact_t(q) and w == ('=', 1) and any(v.el_of_sym(x) is el for x in q.a) for q, w in f if isinstance(q, T)):
                            good = False
                            if not all(tame(q) for q, _ in f if isinstance(q, T)):
                                odd = k
                    if good and start != 0:
                        g, why = first_ok(start)
                        good = g
                        if g is None:
                            odd = k
                    if good:
                        ok = k
                if ok is not None:
                    R.ok('mixed', s.where, 'not mixed only where every ordinary amount has the first one\'s currency')
                elif odd is not None:
                    R.unk('mixed', s.where, 'condition not recognised')
                else:
                    R.bad('mixed', s.where, 'currencies count as one though ordinary amounts may differ', shown)

    def sets(facts):
        return any(isinstance(k, T) and contains(k, lambda y: y.op == 'loopval') for k in facts)

    def first_ok(start):
        lt_ = start.a[0]
        lp = loop_of(lt_)
        l2, s2, ex = base_it(lp.it)
        if l2 is not posts or s2 != 0:
            return None, None
        el = E.elem_of(posts, raw('k', lp.depth))
        for f, u, ev in lp.parts:
            if any(r for r, _, _ in outcomes(fstate(f), lambda o: 1 if has_amount(o, el) else 0)):
                return False, None
        return True, None

    def sym_fact_t(k):
        return isinstance(k, T) and sym_fact(k)

    def has_am(st, el):
        return el is not None and E.decide(st, v.classic(el)) == 1 and E.decide(st, v.some(el)) == 1

    def go(f, rule):
        return lambda: f(ana, moves.Judge(ana, R, ('blank',), rule))

    def envelopes():
        from . import c13
        c13.blank_sums(ana, R)

    R.section('inference', inference)
    R.section('mixed', mixed)
    R.section('balances', go(moves.totals, 'balances'))
    R.section('accounts', go(moves.real_value, 'accounts'))
    R.section('register', go(moves.register, 'register'))
    R.section('envelopes', envelopes)
