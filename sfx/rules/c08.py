"""Only balanced entries are accepted.

Accumulator analysis of the entry validator: every location its loops fold is
classified, row by row, as the sum of the ordinary amounts, the count of blank
ordinary postings, the set of their currencies, or something else. Every
partition that accepts must then imply, by what it compares, one of: the sum is
zero up to rounding; two ordinary amounts differ in currency; one blank posting
with at most one named currency."""
from ..base import *
from ..acc import *

TIGHT, LOOSE = Fraction(1, 10**6), Fraction(1, 10**4)


class V:
    """Vocabulary of postings."""
    def __init__(self, ana):
        ana.need_fields('entry::Entry', 'postings')
        vs = [v['name'] for v in ana.adt('posting::Posting')['variants']]
        if set(vs) != {'Classic', 'Envelope'}:
            raise Missing('variants of Posting')
        ana.need_fields('posting::ClassicPosting', 'amount', 'account')
        ana.need_fields('posting::EnvelopePosting', 'amount', 'account_name', 'envelope_name')
        ana.need_fields('amount::Amount', 'mag', 'symbol')
        self.C = Int(vs.index('Classic'))

    def classic(self, el):
        return Eq(discr(el), self.C)

    def amount(self, el):
        return raw('fld', raw('fld', el, 'Classic.0'), 'amount')

    def some(self, el):
        return Eq(discr(self.amount(el)), Int(1))

    def mag(self, el):
        return raw('fld', raw('fld', self.amount(el), 'Some.0'), 'mag')

    def sym(self, el):
        return raw('fld', raw('fld', self.amount(el), 'Some.0'), 'symbol')

    def el_of_sym(self, t):
        """Posting whose ordinary amount's symbol t is."""
        if t.op == 'fld' and t.a[1] == 'Some.0' and t.a[0].op == 'fld' and t.a[0].a[1] == 'symbol':
            t = t.a[0]
        x = t
        for f in ('symbol', 'Some.0', 'amount', 'Classic.0'):
            if x.op != 'fld' or x.a[1] != f:
                return None
            x = x.a[0]
        return x


def in_list(el, lst):
    if el.op != 'elem':
        return False
    l = el.a[0]
    while l.op == 'from':
        l = l.a[0]
    return l is lst


def about(t, lst):
    """The term may depend on the postings: not only on other parts of the entry."""
    if t is lst or t.op in ('sym', 'loopval', 'hit', 'found'):
        return True
    if t.op == 'fld' and lst.op == 'fld' and t.a[0] is lst.a[0]:
        return False
    return any(about(x, lst) for x in t.a if isinstance(x, T))


def run(ana, R):
    v = V(ana)

    # ------------------------------------------------ accumulators
    def classify(t, lst, st):
        """kind, detail of an accumulator term over the postings."""
        a = acc(t)
        if a is None or a.lst is None:
            return None, None
        l = a.lst
        while l.op == 'from':
            l = l.a[0]
        if l is not lst:
            return None, None
        el = a.el
        initn = num(a.init)
        whole = a.exact and a.start == 0
        if all(u is a.phi or u.op == 'mput' and u.a[0] is a.phi or u.op == 'push' and u.a[0] is a.phi for f, u in a.rows) and initn is None:
            named = opt = True
            for f, u in a.rows:
                if u is a.phi:
                    continue
                x = u.a[1]
                if v.el_of_sym(x) is not el:
                    return 'other', 'collects %s' % pp(x, 5)
                if x is v.sym(el):
                    named = False
                else:
                    opt = False
            # rows that must insert
            missed = None
            for f, u in a.rows:
                if u is not a.phi:
                    continue
                s = fstate(f)
                c = [E.decide(s, v.classic(el)), E.decide(s, v.some(el)), E.decide(s, Eq(discr(v.sym(el)), Int(1)))]
                if not any(x == 0 for x in c):
                    missed = fstr(f)
            extra = [fstr(f) for f, u in a.rows if u is not a.phi and E.decide(fstate(f), v.classic(el)) != 1]
            return ('symbols' if named else 'currencies'), (missed, extra, whole)
        if initn is None:
            return None, None
        ds = a.deltas()
        if any(contains(d, lambda y: y is a.phi) for f, d in ds):
            # largest magnitude?
            if all(u is a.phi or u is ac('max', a.phi, absv(v.mag(el))) or u is absv(v.mag(el)) and E.decide(fstate(f), Lt(a.phi, u)) == 1 for f, u in a.rows):
                return 'largest', None
            lost = [f for f, u in a.rows if plain(u) and not contains(u, lambda y: y is a.phi) and not any(isinstance(q, T) and contains(q, lambda y: y is a.phi) for q, z in f)]
            if lost:
                x = 'what was added before is lost at a posting with %s' % ', '.join(fstr(lost[0], 6))
                return ('count', [x]) if all(num(u) is not None or num(sub(u, a.phi)) is not None for f, u in a.rows) else ('wrongsum', x)
            return None, None

        def sumspec(o):
            return v.mag(el) if o(v.classic(el)) and o(v.some(el)) else Num(0)

        def cntspec(o):
            return Num(1) if o(v.classic(el)) and not o(v.some(el)) else Num(0)
        if all(num(d) is not None for f, d in ds):
            r = rows_vs(ds, cntspec)
            k = verdict(r)
            if k and whole and initn == 0:
                return 'blanks', a
            if k is None:
                return None, None
            # a counter of something else
            return 'count', [x for x in r if x[0] is False] or ['starts at %s' % pp(a.init)]
        r = rows_vs(ds, sumspec)
        k = verdict(r)
        rn = rows_vs([(f, neg(d)) for f, d in ds], sumspec)
        if verdict(rn):
            k, r = True, rn
        if k and initn == 0:
            if whole:
                return 'sum', a
            return 'wrongsum', 'not every posting is summed'
        if k is None:
            return None, None
        if k is True:
            return 'wrongsum', 'the sum starts at %s' % pp(a.init)
        x = [y for y in r if y[0] is False][0]
        return 'wrongsum', 'a posting with %s contributes %s, not %s' % (', '.join(fstr(x[1], 6)), pp(x[2], 6), pp(x[3], 6))

    def accs(st, lst):
        out = {}
        for k in st.facts:
            if not isinstance(k, T):
                continue
            for y in walk(k):
                if y.op == 'loopval' and y not in out:
                    out[y] = classify(y, lst, st)
        return out

    # ------------------------------------------------ tolerance
    def tol(t, A):
        """('tight'|'loose'|None) of a tolerance term."""
        n = num(t)
        if n is not None:
            return 'tight' if n <= TIGHT else ('loose' if n >= LOOSE else None)
        if t.op in ('max', 'min'):
            xs = [tol(x, A) for x in t.a]
            if t.op == 'max':
                return 'loose' if 'loose' in xs else ('tight' if all(x == 'tight' for x in xs) else None)
            return 'tight' if 'tight' in xs else ('loose' if all(x == 'loose' for x in xs) else None)
        c, d = lin_parts(t)
        if c == 0 and len(d) == 1:
            (k, q), = d.items()
            if k.op == 'loopval' and A.get(k, (None,))[0] == 'largest':
                return 'tight' if q <= TIGHT else ('loose' if q >= LOOSE else None)
        if d and len(d) == 1 and c > 0:
            return tol(ac('max', Num(c), sub(t, Num(c))), A)
        return None

    def sums_in(t, A):
        return [y for y in walk(t) if y.op == 'loopval' and A.get(y, (None,))[0] in ('sum', 'wrongsum')]

    def scaled_sum(t, A):
        """c, S for t = c * sum"""
        c, d = lin_parts(t)
        if c == 0 and len(d) == 1:
            (k, q), = d.items()
            if k.op == 'loopval' and A.get(k, (None,))[0] in ('sum', 'wrongsum'):
                return q, k
        return None

    def unround(t):
        """x, eps for roundings of x."""
        c, d = lin_parts(t)
        if c == 0 and len(d) == 1:
            (k, q), = d.items()
            if k.op == 'app' and str(k.a[0]).split('::')[-1] in ('round', 'trunc', 'floor', 'ceil') and len(k.a) == 2:
                c2, d2 = lin_parts(k.a[1])
                if c2 == 0 and len(d2) == 1:
                    (x, q2), = d2.items()
                    return x, abs(1 / q2)
        return None

    def balance(st, A):
        """[(sum term, 'tight'|'loose'|'half', what)] the partition establishes."""
        out = []
        half = {}
        for k, x in st.facts.items():
            if not isinstance(k, T) or x[0] not in ('=', '!'):
                continue
            if k.op == 'lt' and x[0] == '=':
                a, b = k.a
                val = x[1]
                # |s| <= t : lt(t, abs s)=0 / lt(abs s, t)=1
                for m, t, ok in ((b, a, val == 0), (a, b, val == 1)):
                    cm, dm = lin_parts(m)
                    if len(dm) == 1 and cm == 0:
                        (y, q), = dm.items()
                        if y.op == 'abs' and q > 0:
                            z = scaled_sum(y.a[0], A)
                            eps = Fraction(0)
                            if z is None and unround(y.a[0]):
                                w, eps = unround(y.a[0])
                                z = scaled_sum(w, A)
                            if z:
                                if not ok:
                                    out.append((z[1], 'far', pp(k, 6)))
                                else:
                                    g = tol(add(mul(t, Num(1 / (abs(z[0]) * q))), Num(eps)), A)
                                    out.append((z[1], g, pp(k, 6)))
                # one side
                d = sub(a, b)
                S = sums_in(d, A)
                if len(S) == 1 and not any(y.op == 'abs' and S[0] in walk(y) for y in walk(d)):
                    c0, dd = lin_parts(d)
                    if S[0] in dd:
                        q = dd.pop(S[0])
                        rest = mul(mk_lin(c0, dd), Num(1 / q))     # q*(S + rest) < 0
                        up = (q > 0) == (val == 1)      # S < -rest
                        half.setdefault(S[0], {})['hi' if up else 'lo'] = neg(rest) if up else rest
            elif x[0] == '=' and isinstance(x[1], (int, Fraction)):
                z = scaled_sum(k, A)
                if z:
                    out.append((z[1], 'tight' if x[1] == 0 else 'far', '%s = %s' % (pp(k, 4), x[1])))
                elif unround(k) and scaled_sum(unround(k)[0], A) and x[1] == 0:
                    w, eps = unround(k)
                    out.append((scaled_sum(w, A)[1], tol(Num(eps), A), pp(k, 4)))
                elif k.op == 'abs' and scaled_sum(k.a[0], A):
                    out.append((scaled_sum(k.a[0], A)[1], 'tight' if x[1] == 0 else 'far', pp(k, 4)))
                elif k.op == 'eq' and x[1] == 1 and any(scaled_sum(y, A) for y in k.a):
                    out.append((sums_in(k, A)[0], None, pp(k, 4)))
        for S, h in half.items():
            if 'hi' in h and 'lo' in h:
                g = [tol(y, A) for y in h.values()]
                out.append((S, 'loose' if 'loose' in g else ('tight' if all(x == 'tight' for x in g) else None), 'both sides'))
            else:
                out.append((S, 'half', 'only one side of the sum is bounded'))
        return out

    def mixed(st, A, lst):
        """Two ordinary amounts known to differ in currency: True / reason string / False"""
        why = False
        for k, x in st.facts.items():
            if not isinstance(k, T):
                continue
            if k.op == 'eq' and x == ('=', 0):
                e = [v.el_of_sym(y) for y in k.a]
                if all(y is not None and in_list(y, lst) for y in e):
                    c = [E.decide(st, v.classic(y)) == 1 and E.decide(st, v.some(y)) == 1 for y in e]
                    if all(c):
                        return True
                    why = 'it compares postings that need not be ordinary ones with amounts'
            if k.op == 'lt' and x == ('=', 1) and num(k.a[0]) is not None and num(k.a[0]) >= 1 and k.a[1].op == 'len' and A.get(k.a[1].a[0], (None,))[0] in ('symbols', 'currencies'):
                miss, extra, whole = A[k.a[1].a[0]][1]
                if not extra:
                    return True
                why = 'it counts currencies of postings that are not ordinary'
        return why

    def one_named(st, A, lst):
        """At most one named currency: True / False / reason"""
        why = None
        for k, x in st.facts.items():
            if not isinstance(k, T):
                continue
            if k.op == 'len' and A.get(k.a[0], (None,))[0] in ('symbols', 'currencies') or k.op == 'lt' and any(y.op == 'len' and A.get(y.a[0], (None,))[0] in ('symbols', 'currencies') for y in k.a):
                L = k if k.op == 'len' else [y for y in k.a if y.op == 'len'][0]
                miss, extra, whole = A[L.a[0]][1]
                if E.decide(st, Lt(Int(1), L)) == 0:
                    if whole and not miss:
                        return True
                    why = 'the currencies of some postings are not counted%s' % ((' (' + ', '.join(miss) + ')') if miss else '')
                elif why is None:
                    why = 'more than one currency is let through'
        return why

    # ------------------------------------------------ partitions
    def accepts(s, lst, ok, where, rule):
        n = 0
        for st, val in s.outs:
            if not ok(val):
                continue
            n += 1
            A = accs(st, lst)
            bal = balance(st, A)
            kinds = {k: d[0] for k, d in A.items()}
            B_ = [k for k, d in A.items() if d[0] == 'blanks']
            nb = [k for k in B_ if E.decide(st, Eq(k, Int(0))) == 1]
            hb = [k for k in B_ if E.decide(st, Lt(Int(0), k)) == 1]
            cap = None
            for k in B_:
                a = A[k][1]
                inc = [f for f, d in a.deltas() if num(d) != 0]
                if E.decide(st, Lt(Int(1), k)) == 0 or all(E.decide(fstate(f), Lt(Int(0), a.phi)) == 0 or E.decide(fstate(f), Eq(a.phi, Int(0))) == 1 for f in inc):
                    cap = True
            mx = mixed(st, A, lst)
            # conditions that may decide in an unrecognised form
            odd = [k for k, d in A.items() if d[0] is None]
            odd += [k for k in st.facts if isinstance(k, T) and k.op == 'app' and about(k, lst)]
            odd += [k for k in st.facts if isinstance(k, T) and k.op == 'found' and not fine_found(k, lst)]
            empty = E.decide(st, Eq(raw('len', lst), Int(0))) == 1
            tight = [b for b in bal if b[1] == 'tight' and kinds[b[0]] == 'sum']

            def bad(what):
                if odd:
                    R.unk(rule, where, 'a condition of an accepting path is not recognised: %s' % pp(odd[0], 5))
                else:
                    R.bad(rule, where, what, facts_str(st))
            # (1) blanks
            if hb or not B_ or not nb:
                # the partition has, or may have, blank postings
                if not cap:
                    w = [k for k, d in A.items() if d[0] == 'count']
                    bad('an entry is accepted with any number of blank postings' + (': what is counted is off: %s' % str(A[w[0]][1][0])[:200] if w else ''))
                else:
                    R.ok(rule, where, 'at most one blank posting')
                if tight:
                    R.ok(rule, where, 'sum of zero')
                on = one_named(st, A, lst)
                nm = notmixed(st, lst)
                if on is True or nm:
                    R.ok(rule, where, 'one named currency beside a blank posting')
                else:
                    bad('an entry with a blank posting is accepted beside amounts in several currencies' + (': ' + on if on else ''))
                if not hb and B_ and not tight and mx is not True:
                    bad('an entry without a blank posting is accepted whatever it adds up to')
                continue
            # (2) no blanks
            if tight:
                R.ok(rule, where, 'accepted with a sum of zero: %s' % tight[0][2])
            elif mx is True:
                R.ok(rule, where, 'accepted with two currencies')
            elif empty:
                R.ok(rule, where, 'no postings')
            else:
                w = [b for b in bal]
                why = ''
                for S, g, t in w:
                    if kinds[S] == 'wrongsum' and g in ('tight', 'loose', None):
                        why = 'what is compared is not the sum of the ordinary amounts: %s' % A[S][1]
                    elif g == 'loose':
                        why = 'the tolerance is not that of rounding: %s' % t
                    elif g == 'half':
                        why = t
                    elif g is None:
                        odd.append(S)
                if mx:
                    why = why or mx
                bad('an entry without blank postings is accepted in one currency without its amounts adding up to zero' + (' (%s)' % why if why else ''))
        return n

    def fine_found(k, lst):
        """Search loops whose rows speak of postings' kind, amount and currency only."""
        lp = loop_of(k.a[0])
        if base_it(lp.it)[0] is None:
            return False
        for f, u, ev in lp.parts:
            for a, x in f:
                if isinstance(a, T) and any(y.op == 'app' for y in walk(a)):
                    return False
        return True

    def notmixed(st, lst):
        """A search for a differing currency came back empty-handed."""
        for k, x in st.facts.items():
            if isinstance(k, T) and k.op == 'found' and x == ('=', 0):
                lp = loop_of(k.a[0])
                l, start, ex = base_it(lp.it)
                if l is None or not ex:
                    continue
                good = bool(lp.parts)
                has_eq = False
                a = [y for f, u, ev in lp.parts for q, z in f if isinstance(q, T) for y in walk(q)]
                for f, u, ev in lp.parts:
                    s = fstate(f)
                    els = [y for q, z in f if isinstance(q, T) for y in walk(q) if y.op == 'elem' and y.a[1].op == 'k']
                    if not els:
                        continue
                    el = els[0]
                    if not in_list(el, lst):
                        good = False
                    eq = [q for q, z in f if isinstance(q, T) and q.op == 'eq' and z == ('=', 1) and any(v.el_of_sym(y) is el for y in q.a) and all(v.el_of_sym(y) is not None for y in q.a)]
                    has_eq |= bool(eq)
                    if not eq and E.decide(s, v.classic(el)) != 0 and E.decide(s, v.some(el)) != 0:
                        good = False
                if good and (has_eq or start == 0):
                    # every later amount has the currency of the first, or there is no amount at all
                    return True
        return False

    def validate():
        n = 'entry::Entry::validate'
        s = ana.summ(n, inline=('has_mixed_currencies',))
        accepts(s, raw('fld', Sym('P0'), 'postings'), is_ok, s.where, 'accepts-balanced')

    def used():
        n = 'entry::Entry::parse'
        ef = ana.adt('entry::Entry')['variants'][0]['fields']
        s = ana.summ(n, inline=(n, 'has_mixed_currencies'), opaque=('entry::Entry::validate', 'entry::Entry::parse_header'))
        for st, val in s.outs:
            if not is_ok(val):
                continue
            e = val.a[2]
            if e.op == 'fld' or e.op != 'agg':
                calls = [k for k in st.facts if isinstance(k, T) and k.op == 'discr' and k.a[0].op == 'app' and str(k.a[0].a[0]).endswith('Entry::validate')]
            else:
                calls = [k for k in st.facts if isinstance(k, T) and k.op == 'discr' and k.a[0].op == 'app' and str(k.a[0].a[0]).endswith('Entry::validate')]
            good = [k for k in calls if st.facts[k] == ('=', 0)]
            if good and any(k.a[0].a[1] is e for k in good):
                R.ok('validated', s.where, 'the entry returned has been validated')
            elif good and e.op == 'agg' and any(k.a[0].a[1].op == 'agg' and k.a[0].a[1].a[2 + ef.index('postings')] is e.a[2 + ef.index('postings')] for k in good):
                R.ok('validated', s.where, 'the postings returned have been validated')
            elif good:
                R.bad('validated', s.where, 'what is validated is not the entry returned', facts_str(st))
            elif not [1 for f in ana.p.local if f['name'].endswith('entry::Entry::validate')]:
                R.unk('validated', s.where, 'no validator')
            else:
                ap = [k for k in st.facts if isinstance(k, T) and any(y.op == 'app' and 'validate' in str(y.a[0]) for y in walk(k))]
                evs = [ev for ev in st.ev if 'validate' in str(ev)]
                if ap:
                    R.unk('validated', s.where, pp(ap[0], 4))
                else:
                    R.bad('validated', s.where, 'an entry is accepted without being validated' + (' (its verdict is ignored)' if evs else ''), facts_str(st))

    R.section('accepts-balanced', validate)
    R.section('validated', used)
