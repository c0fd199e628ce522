"""Inferred envelope changes.

In the value-flow summary of processing an entry for one envelope, the sums of
the postings to the envelope's account and to its linked accounts are recognised
by what each posting adds to them (row by row of the loop); the change applied is
compared with the smaller of the two, signed by the first, in the order domain;
a partition that changes nothing must know one of the two to be zero or absent."""
from ..base import *
from ..acc import *
from .. import order as O, pools
from .c08 import V
from .c12 import summary, has_manual, weaker, TAME
from .c14 import variant
from .c16 import F

BLANK = Sym('amount of the blank posting')
GB = 'entry::Entry::get_blank_amount'
NUMERIC = {'fld', 'lin', 'min', 'max', 'abs', 'num', 'int', 'loopval', 'loop', 'sym', 'mul'}


def run(ana, R):
    Infer(ana, R).section()


def blank_sums(ana, R):
    Infer(ana, R, only_blank=True).sums()


class Infer:
    def __init__(self, ana, R, only_blank=False):
        self.R = R
        self.infer, self.sums = body(ana, R, only_blank)

    def section(self):
        self.R.section('infer', self.infer)


def body(ana, R, only_blank):
    v = V(ana)
    ana.need_fields('posting::ClassicPosting', 'cost_assertion')
    e, ent = Sym('P0'), Sym('P1')
    posts, date = F(ent, 'postings'), F(ent, 'date')
    esym, auto, own = F(e, 'amount', 'symbol'), F(e, 'auto_accounts'), F(e, 'account')
    blank = fcall(GB, ent)
    bl = raw('fld', raw('fld', blank, 'Ok.0'), 'Some.0')
    total, unit = variant(ana, 'posting::Cost', 'TotalCost'), variant(ana, 'posting::Cost', 'UnitCost')
    envd = variant(ana, 'posting::Posting', 'Envelope')
    MEMO = {}

    def acct(el):
        return F(raw('fld', el, 'Classic.0'), 'account')

    def value(o, el):
        """What a posting is worth in the currency of the envelope, or 'err'."""
        if o(v.some(el)):
            a = raw('fld', v.amount(el), 'Some.0')
            if o(Eq(v.sym(el), esym)):
                return v.mag(el)
            if o(Eq(discr(esym), Int(1))):
                return 'err'
            if not o(Eq(discr(v.sym(el)), Int(1))):
                return v.mag(el)
            c = F(raw('fld', el, 'Classic.0'), 'cost_assertion')
            if not o(Eq(discr(c), Int(1))):
                return 'err'
            c = raw('fld', c, 'Some.0')
            if o(Eq(discr(c), total)):
                b = raw('fld', c, 'TotalCost.0')
                return F(b, 'mag') if not o(Eq(discr(F(b, 'symbol')), Int(1))) else 'err'
            b = raw('fld', c, 'UnitCost.0')
            return mul(v.mag(el), F(b, 'mag')) if not o(Eq(discr(F(b, 'symbol')), Int(1))) else 'err'
        if o(Eq(discr(blank), Int(1))):
            return 'err'
        if not o(Eq(discr(raw('fld', blank, 'Ok.0')), Int(1))):
            raise Infeasible
        return F(bl, 'mag') if o(Eq(F(bl, 'symbol'), esym)) else 'err'

    def side(o, el, which):
        mine = o(Eq(acct(el), own))
        if which == 'own':
            return mine
        return not mine and bool(o(raw('has', auto, acct(el))))

    def classic_rows(a):
        out = []
        for f, d in a.deltas():
            if fdec(f, v.classic(a.el)) == 0 or only_blank and fdec(f, v.some(a.el)) != 0:
                continue
            out.append((f, d))
        return out

    def tame_facts(f, extra=()):
        return all(all(x.op in TAME or x.op in extra for x in walk(k)) for k, _ in (f.items() if isinstance(f, dict) else f) if isinstance(k, T))

    def compare(a, which):
        """rows of an accumulator against one side: [(True | False | None, why)]"""
        out = []
        for f, d in classic_rows(a):
            st = fstate(f)
            st.facts.setdefault(discr(a.el), ('=', v.C.a[0]))
            def spec(o):
                if not side(o, a.el, which):
                    return Num(0)
                return value(o, a.el)
            for exp, asked, s2 in outcomes(st, spec):
                if exp != 'err' and (d is exp or num(sub(d, exp)) == 0 or E.decide(s2, Eq(d, exp)) == 1):
                    out.append((True, None))
                    continue
                rel = [r for x, _ in asked for r in related(st, x) if r.op != 'more']
                part, cannot = weaker(st, asked)
                if cannot:
                    continue
                rel = [r for r in rel if r not in part]
                d2 = subst(d, lambda y: BLANK if y is blank or y is bl else None, {})
                if rel and not all(q.op in ('eq', 'has', 'discr') for q in rel) or not plain(d2) or not tame_facts(f):
                    out.append((None, None))
                elif rel and any(not any(x in (discr(a.el), Eq(acct(a.el), own), raw('has', auto, acct(a.el)), v.some(a.el)) or x.op == 'discr' for x in [q]) for q in rel):
                    out.append((None, None))
                else:
                    out.append((False, '%s, where %s is right; the posting has %s' % (pp(d), exp if exp == 'err' else pp(exp), '; '.join(fstr(f)))))
        return out

    def kind(t):
        """('own' | 'linked', None) / ('bad', why) / (None, None)"""
        if t in MEMO:
            return MEMO[t]
        MEMO[t] = r = kind_(t)
        return r

    def kind_(t):
        a = acc(t) if t.op == 'loopval' else acc(t.a[0])
        if a is None or a.lst is not posts:
            return None, None
        if t.op == 'fld':
            # one field of a value kept whole
            def proj(x):
                return pools.fields_of(s_.eng, x)[0] if x is not None else None
            s_ = summary(ana)
            a.rows = [(f, proj(u)) for f, u in a.rows]
            a.init, a.phi = proj(a.init), proj(a.phi)
        if a.init is None or num(a.init) is None:
            return None, None
        if all(num(d) is not None for _, d in a.deltas()):
            return 'count', a
        if leaves_out(a.lp.it):
            return 'bad', 'not every posting is summed: ' + pp(a.lp.it)
        if a.start != 0 or not a.exact:
            return None, None
        rs = {w: compare(a, w) for w in ('own', 'linked')}
        for w, r in rs.items():
            if all(x[0] for x in r):
                if num(a.init) != 0:
                    return 'bad', 'the sum starts at ' + pp(a.init)
                return w, None
        if any(all(x[0] is not False for x in r) for r in rs.values()):
            return None, None
        best = min(rs.values(), key=lambda r: sum(1 for x in r if x[0] is False))
        return 'bad', 'a posting adds ' + [x[1] for x in best if x[0] is False][0]

    def isacc(x):
        return x.op == 'loopval' or x.op == 'fld' and x.a[1] == 'mag' and x.a[0].op == 'loopval'

    def absent(facts):
        """The partition knows there is no posting to the envelope's account, or none to a linked one."""
        for k, w in facts.items():
            if not isinstance(k, T):
                continue
            for t in [x for x in walk(k) if x.op == 'loopval']:
                kd, a = kind(t)
                if kd != 'count' or num(a.init) != 0 or a.start != 0 or not a.exact or leaves_out(a.lp.it):
                    continue
                if any(num(d) < 0 for _, d in a.deltas()):
                    continue
                if not (fdec(facts, Lt(t, Int(1))) == 1 or fdec(facts, Eq(t, Int(0))) == 1):
                    continue
                for which in ('own', 'linked'):
                    if all(not side_possible(f, a.el, which) for f, d in classic_rows(a) if num(d) == 0):
                        return True
            if k.op == 'found' and fdec(facts, k) == 0:
                lp = loop_of(k.a[0])
                lst, start, exact = base_it(lp.it)
                if lst is posts and start == 0 and exact and not leaves_out(lp.it):
                    el = E.elem_of(lst, raw('k', lp.depth))
                    rows = [f for f, u, ev in lp.parts if fdec(f, v.classic(el)) != 0]
                    for which in ('own', 'linked'):
                        if all(not side_possible(f, el, which) for f in rows):
                            return True
        return False

    def side_possible(f, el, which):
        st = fstate(f)
        st.facts.setdefault(discr(el), ('=', v.C.a[0]))
        return any(r for r, _, _ in outcomes(st, lambda o: 1 if side(o, el, which) else 0))

    def classify():
        s = summary(ana)
        ana.fn(GB)
        terms = set()
        for st, val in s.outs:
            for k in st.facts:
                if isinstance(k, T):
                    terms |= {x for x in walk(k) if isacc(x)}
            for x in st.ev:
                if x[0] == 'applied':
                    terms |= {y for y in walk(x[1]) if isacc(y)}
        kinds = {t: kind(t) for t in terms}
        sums = {w: [t for t, k in kinds.items() if k[0] == w] for w in ('own', 'linked')}
        for t, (k, why) in kinds.items():
            if k == 'bad':
                R.bad('envelopes' if only_blank else 'sums', s.where, why)
            elif k in ('own', 'linked'):
                R.ok('envelopes' if only_blank else 'sums', s.where, 'the sum of the postings to the %s account' % k)
        return s, kinds, sums

    def infer():
        s, kinds, sums = classify()
        if not sums['own'] or not sums['linked']:
            if any(k[0] == 'bad' for k in kinds.values()):
                return

            def applies(st):
                return any(x[0] == 'applied' for x, _, _ in events(st.ev))
            plainly = [m for st, val in s.outs if has_manual(ana, st.facts, posts, envd) == 0
                       for x in st.ev if x[0] == 'applied' for m in (pools.fields_of(s.eng, x[1])[0],)]
            one = sums['own'] or sums['linked']
            if one and plainly and all(
                    z.op in NUMERIC and (z.op != 'loopval' or z in one) for m in plainly for z in walk(m)):
                R.bad('size', s.where, 'the change is %s, whatever the postings to %s add up to' % (
                    pp(plainly[0]), 'linked accounts' if sums['own'] else 'the account'))
                return
            man = [(st, has_manual(ana, st.facts, posts, envd)) for st, val in s.outs if is_ok(val)]
            free = [st for st, m in man if m == 0]
            if free and all(m in (0, 1) for _, m in man) and any(applies(st) for st, m in man if m == 1) \
                    and not any(applies(st) or ana.mem(st, 0) is not e for st in free):
                R.bad('changes', s.where, 'no entry without envelope postings changes the envelope', facts_str(free[0]))
            else:
                R.unk('sums', s.where, 'sums of the postings not recognised')
            return
        S, A = sums['own'][0], sums['linked'][0]

        def canon(t):
            return subst(t, lambda y: S if y in sums['own'] else A if y in sums['linked'] else None, {})
        small = ac('min', absv(S), absv(A))
        for st, val in s.outs:
            if has_manual(ana, st.facts, posts, envd) != 0:
                continue
            facts = {canon(k) if isinstance(k, T) else k: w for k, w in st.facts.items()}
            shown = facts_str(st)
            apps = [x for x in st.ev if x[0] == 'applied']
            loops = [x[1] for x in st.ev if x[0] == 'loop' and any(y[0] == 'applied' for f, u, ev in loop_of(x[1]).parts for y, _, _ in events(ev))]
            if loops:
                R.unk('size', s.where, 'applied in a loop')
                continue
            if is_err(val):
                errors(s, st, shown)
                continue
            if not is_ok(val):
                R.unk('size', s.where, 'neither Ok nor Err')
                continue
            numeric = {k: w for k, w in facts.items() if not isinstance(k, T) or all(x.op in NUMERIC | {'lt', 'eq'} for x in walk(k))}
            # sign() and the like are not interpreted
            murky = [k for k in facts if isinstance(k, T) and not all(x.op in TAME | NUMERIC | {'agg'} for x in walk(k))]
            if len(apps) > 1:
                R.bad('size', s.where, 'the envelope is changed %d times by one entry' % len(apps), shown)
                continue
            if not apps:
                if absent(st.facts) or O.equal(numeric, small, Num(0))[0]:
                    R.ok('changes', s.where, 'nothing is changed only where one of the sums is nothing')
                elif murky:
                    R.unk('changes', s.where, 'condition not recognised: ' + pp(murky[0])[:90])
                else:
                    R.bad('changes', s.where, 'an entry moving money between the account and a linked account does not change the envelope', shown)
                continue
            x = apps[0]
            m, y = pools.fields_of(s.eng, x[1])
            m = canon(m)
            if y is esym:
                R.ok('currency', s.where, 'in the currency of the envelope')
            elif y.op in ('fld', 'agg', 'str') and fdec(st.facts, Eq(y, esym)) is None:
                R.bad('currency', s.where, 'the change is in %s' % pp(y), shown)
            elif fdec(st.facts, Eq(y, esym)) != 1:
                R.unk('currency', s.where, 'currency not recognised: ' + pp(y)[:80])
            if x[2] is date:
                R.ok('date', s.where, 'on the date of the entry')
            elif x[2].op in ('app', 'fld', 'sym'):
                R.bad('date', s.where, 'the change is dated %s, not as the entry' % pp(x[2]), shown)
            elif x[2].op in ('min', 'max') and any(y is date for y in walk(x[2])) and not any(y.op in ('loopval', 'phi') for y in walk(x[2])):
                R.bad('date', s.where, 'the change is dated %s, not as the entry' % pp(x[2], 4), shown)
            else:
                R.unk('date', s.where, 'date not recognised: %s' % pp(x[2], 4))
            if not all(z.op in NUMERIC for z in walk(m)) or any(z.op == 'loopval' and z not in (S, A) for z in walk(m)):
                R.unk('size', s.where, 'amount not recognised: ' + pp(m)[:90])
                continue
            for exp, case in ((neg(small), O.lt(S, Num(0))), (small, O.le(Num(0), S))):
                if not all(O.feasible(b + [case]) for b in O.expand(O.from_facts(numeric))) and not any(O.feasible(b + [case]) for b in O.expand(O.from_facts(numeric))):
                    continue
                r, why = O.equal(numeric, m, exp, extra=[case])
                if r:
                    R.ok('size', s.where, 'the smaller of the two sums, with the sign of the first')
                elif murky:
                    R.unk('size', s.where, 'condition not recognised: ' + pp(murky[0])[:90])
                else:
                    R.bad('size', s.where, 'the envelope is changed by %s, not by %s' % (pp(m), pp(exp)), shown)

    def errors(s, st, shown):
        if E.decide(st, Eq(discr(blank), Int(1))) == 1:
            R.ok('errors', s.where, 'the blank amount could not be told')
            return
        for k in st.facts:
            if isinstance(k, T) and k.op == 'found' and E.decide(st, k) == 1:
                lp = loop_of(k.a[0])
                lst, start, exact = base_it(lp.it)
                if lst is not posts:
                    continue
                el = subst(E.elem_of(lst, raw('k', lp.depth)), lambda y: raw('hit', k.a[0]) if y.op == 'k' else None, {})
                if E.decide(st, v.classic(el)) == 0:
                    R.ok('errors', s.where, 'cannot happen: there is no envelope posting')
                    return
                for exp, asked, s2 in outcomes(st, lambda o: value(o, el)):
                    if exp == 'err':
                        R.ok('errors', s.where, 'a posting with no value in the currency of the envelope')
                    elif E.decide(s2, Eq(v.sym(el), esym)) == 0 and E.decide(s2, Eq(discr(esym), Int(1))) == 0 \
                            and E.decide(s2, Eq(discr(v.sym(el)), Int(1))) == 0:
                        continue            # both without a currency, and different: cannot be
                    elif any(r is not Eq(v.sym(el), esym) for a, _ in asked for r in related(st, a)) or not tame_facts(st.facts, ('min', 'max', 'abs')):
                        R.unk('errors', s.where, 'condition not recognised')
                    else:
                        R.bad('errors', s.where, 'an entry whose postings all have a value in the currency of the envelope is refused', shown)
                return
        R.unk('errors', s.where, 'refused outside the loop over the postings')

    return infer, classify
