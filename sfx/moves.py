"""Who counts postings, and how: the loops of the reports that add the amounts of
postings to a pool, row by row, against what each posting ought to contribute.
Shared by the rules on blank postings (C09) and on ordinary ones (C11)."""
from .base import *
from .acc import *
from . import pools
from .rules.c08 import V
from .rules.c12 import weaker
from .rules.c16 import F

GB = 'entry::Entry::get_blank_amount'
BLANK = Sym('amount of the blank posting')
TAME = {'fld', 'sym', 'elem', 'k', 'hit', 'loop', 'loopval', 'discr', 'eq', 'lt', 'int', 'num', 'str', 'not', 'found', 'len', 'has', 'lin', 'app', 'more', 'phi', 'agg', 'from', 'after', 'tuple', 'setof', 'abs'}


def tame(t):
    return all(x.op in TAME for x in walk(t))


class Judge:
    """judge(kind, ...) with kind 'blank' | 'amount' | 'envelope' | 'whole'; `wants` filters."""
    def __init__(self, ana, R, wants, rule):
        self.ana, self.R, self.wants, self.rule = ana, R, wants, rule
        self.v = V(ana)

    def blank(self, entry):
        return fcall(GB, entry)

    def bl(self, entry):
        return raw('fld', raw('fld', self.blank(entry), 'Ok.0'), 'Some.0')

    def acct(self, el):
        return F(raw('fld', el, 'Classic.0'), 'account')

    def kinds(self, st, el):
        """which kinds of posting a row is for"""
        c = E.decide(st, self.v.classic(el))
        if c == 0:
            return {'envelope'}
        so = E.decide(st, self.v.some(el))
        out = {'amount'} if so == 1 else {'blank'} if so == 0 else {'amount', 'blank'}
        return out if c == 1 else out | {'envelope'}

    def rows(self, s, what, rows, el, entry, phi, split, selected, conds=()):
        """rows: [(facts, update)]; split(update) -> list of amounts added, or None if not understood"""
        R, v, rule = self.R, self.v, self.rule
        blank = self.blank(entry)
        for f, u in rows:
            st = fstate(f)
            if E.decide(st, Eq(discr(blank), Int(1))) == 1:
                continue
            got = split(f, u)

            def spec(o):
                if not o(v.classic(el)):
                    return ('envelope', None)
                if o(v.some(el)):
                    return ('amount', raw('fld', v.amount(el), 'Some.0')) if selected(o, self.acct(el)) else ('amount', None)
                if o(Eq(discr(blank), Int(1))) or not o(Eq(discr(raw('fld', blank, 'Ok.0')), Int(1))):
                    raise Infeasible
                return ('blank', self.bl(entry)) if selected(o, self.acct(el)) else ('blank', None)
            for (kind, exp), asked, s2 in outcomes(st, spec):
                if kind not in self.wants:
                    continue
                if got is None:
                    R.unk(rule, s.where, '%s: update not recognised: %s' % (what, pp(u)[:90]))
                    continue
                if exp is None and not got or exp is not None and len(got) == 1 and self.same(s, s2, got[0], exp):
                    R.ok(rule, s.where, '%s: %s' % (what, {'envelope': 'an envelope posting does not count', 'amount': 'an ordinary posting counts with its amount, if it is selected', 'blank': 'a blank posting counts with what balances the entry, if it is selected'}[kind]))
                    continue
                if exp is not None and not got and self.zero(s, s2, exp):
                    R.ok(rule, s.where, '%s: nothing to count' % what)
                    continue
                part, cannot = weaker(st, asked)
                if cannot:
                    continue
                rel = [r for a, _ in asked for r in related(st, a) if r.op != 'more' and r not in part and r not in conds and not innocent(r)]
                odd = [k for k in st.facts if isinstance(k, T) and k not in part and not tame(k)]
                g2 = [subst(g, lambda y: BLANK if y is blank else None, {}) for g in got]
                if rel or odd or not all(tame(g) for g in g2):
                    R.unk(rule, s.where, '%s: not recognised: %s' % (what, pp((rel + odd + g2)[0])[:90]))
                elif kind == 'envelope':
                    R.bad(rule, s.where, '%s: an envelope posting counts as %s' % (what, ', '.join(map(pp, got))), fstr(f))
                elif exp is None:
                    R.bad(rule, s.where, '%s: a posting to another account counts' % what, fstr(f))
                elif not got:
                    R.bad(rule, s.where, '%s: %s posting is not counted' % (what, 'a blank' if kind == 'blank' else 'an ordinary'), fstr(f))
                else:
                    R.bad(rule, s.where, '%s: %s posting counts as %s, not as %s' % (what, 'a blank' if kind == 'blank' else 'an ordinary', ', '.join(map(pp, got)), pp(exp)), fstr(f))

    def same(self, s, st, a, b):
        if a is b:
            return True
        am, ay = pools.fields_of(s.eng, a)
        bm, by = pools.fields_of(s.eng, b)
        return (am is bm or num(sub(am, bm)) == 0) and (ay is by or E.decide(st, Eq(ay, by)) == 1)

    def zero(self, s, st, a):
        m, _ = pools.fields_of(s.eng, a)
        return E.decide(st, Eq(m, Num(0))) == 1 or E.decide(st, Lt(m, Num(0))) == 0 and E.decide(st, Lt(Num(0), m)) == 0

    def whole(self, s, what, st, t, lst):
        """the loop of accumulator t runs over all of lst"""
        a = acc(t)
        R = self.R
        if a is None:
            b, ams = pools.flat(t)
            c = acc(b) if ams and b.op == 'loopval' else None
            if c is not None and c.lst is lst and st is not None and cut_short(st, b.a[0]) and all(tame(x) for x in ams):
                R.bad(self.rule, s.where, '%s: the postings after one are not counted' % what, facts_str(st))
                return None
            if all(x.op in ('emptymap', 'vec', 'agg') for x in walk(t)):
                R.bad(self.rule, s.where, '%s: nothing is counted' % what, facts_str(st) if st is not None else [])
                return None
            R.unk(self.rule, s.where, '%s: not a sum: %s' % (what, pp(t)[:80]))
            return None
        if a.lp.it is not None and leaves_out(a.lp.it) and a.lst is not None and base_list(a.lst) is lst:
            R.bad(self.rule, s.where, '%s: not every posting is counted: %s' % (what, pp(a.lp.it)), facts_str(st) if st else [])
            return None
        if a.lst is not lst or a.start != 0 or not a.exact:
            R.unk(self.rule, s.where, '%s: loop over %s' % (what, pp(a.lp.it)[:80] if a.lp.it is not None else '?'))
            return None
        if st is not None and cut_short(st, t.a[0]):
            R.bad(self.rule, s.where, '%s: the postings after one are not counted' % what, facts_str(st))
            return None
        return a


def base_list(l):
    while l.op in ('from', 'take', 'reversed'):
        l = l.a[0]
    return l


def innocent(r):
    """a condition on the sign of an amount, or on what a map already has"""
    return r.op == 'has' and r.a[0].op in ('phi', 'loopval') or r.op in ('lt', 'eq') and any(num(x) is not None for x in r.a)


def split_pool(phi):
    def f(facts, u):
        base, ams = pools.flat(u)
        return ams if base is phi else None
    return f


def split_map(phi, acct, empty, j, el):
    def f(facts, u):
        if u is phi:
            return []
        if u.op != 'mput' or u.a[0] is not phi:
            return None
        key = u.a[1]
        if key is not acct and j.kinds(fstate(facts), el) != {'envelope'}:
            return None
        base, ams = pools.flat(u.a[2])
        has = fdec(facts, raw('has', phi, key))
        if base is raw('at', phi, key) and has != 0 or base is empty and has == 0:
            return ams
        return None
    return f


def totals(ana, j):
    """Ledger::get_totals"""
    P = 'ledger::Ledger::get_totals'
    ana.need_fields('ledger::Ledger', 'entries')
    s = ana.summ(P, inline=(P,), models=pools.models(), key='pools')
    R, what = j.R, 'balances'
    ents = F(Sym('P0'), 'entries')
    n = 0
    for st, val in s.outs:
        if not is_ok(val):
            continue
        n += 1
        t = payload_ok(val)
        a = j.whole(s, what, st, t, ents)
        if a is None:
            continue
        if a.init.op != 'emptymap':
            R.unk(j.rule, s.where, 'balances start from ' + pp(a.init)[:60])
        ent = a.el
        for f, u in a.rows:
            if u.op == 'loopval':
                b = j.whole(s, what, fstate(f), u, F(ent, 'postings'))
                if b is None:
                    continue
                if b.init is not a.phi:
                    R.unk(j.rule, s.where, 'the totals of an entry start from ' + pp(b.init)[:60])
                    continue
                cond = [k for k, _ in f if isinstance(k, T) and k.op not in ('more', 'found')]
                acct = j.acct(b.el)
                bad_keys(j, s, b, acct)
                j.rows(s, what, b.rows, b.el, ent, b.phi, split_map(b.phi, acct, pools.empty(s.eng), j, b.el), lambda o, x: True)
            elif u is a.phi:
                cond = [k for k, _ in f if isinstance(k, T) and k.op != 'more']
                if all(tame(k) for k in cond) and not any(k.op in ('found', 'len') or contains(k, lambda x: x is F(ent, 'postings')) for k in cond):
                    if 'amount' in j.wants:
                        R.bad(j.rule, s.where, 'balances: an entry is not counted', fstr(f))
                elif skipped_for_one(f, F(ent, 'postings')):
                    if 'amount' in j.wants:
                        R.bad(j.rule, s.where, 'balances: an entry is not counted because of one of its postings', fstr(f))
                else:
                    R.unk(j.rule, s.where, 'balances: an entry is not counted under ' + '; '.join(fstr(f))[:90])
            else:
                R.unk(j.rule, s.where, 'balances: update not recognised: ' + pp(u)[:90])
    if not n:
        R.unk(j.rule, s.where, 'no totals returned')


ALTER = {'to_lowercase', 'to_uppercase', 'to_ascii_lowercase', 'to_ascii_uppercase', 'replace', 'replacen', 'trim_end_matches',
         'trim_start_matches', 'trim_matches', 'repeat', 'strip_prefix', 'strip_suffix', 'split_once', 'rsplit_once', 'split', 'rsplit', 'concat', 'cat', 'substr', 'slice'}


def altered(key, acct):
    """key is another text than acct for some accounts"""
    if not contains(key, lambda x: x is acct):
        return False
    hit = False
    while key is not acct:
        n = key.a[0].split('::')[-1] if key.op == 'app' and isinstance(key.a[0], str) else key.op
        if n not in ALTER:
            return False
        hit = True
        nx = [x for x in key.a if isinstance(x, T) and contains(x, lambda y: y is acct)]
        if len(nx) != 1:
            return False
        key = nx[0]
    return hit


def skipped_for_one(f, posts):
    """the facts are about one posting that was found (the others can be anything)"""
    hits = set()
    for k, d in f:
        if isinstance(k, T) and k.op == 'found' and fdec(f, k) == 1:
            lp = loop_of(k.a[0])
            l, start, exact = base_it(lp.it) if lp.it is not None else (None, 0, False)
            if l is not posts or start != 0:
                return False
            hits.add(k.a[0])
    if not hits:
        return False
    for k, d in f:
        if not isinstance(k, T) or k.op in ('more', 'found') and (k.op == 'more' or k.a[0] in hits):
            continue
        if not tame(k):
            return False
        k2 = subst(k, lambda y: Sym('posting') if y.op == 'elem' and y.a[0] is posts and y.a[1].op == 'hit' and y.a[1].a[0] in hits else None, {})
        if contains(k2, lambda y: y is posts):
            return False
    return True


def bad_keys(j, s, b, acct):
    """a posting is added under another key, or replaces what was there"""
    for f, u in b.rows:
        if u.op != 'mput' or u.a[0] is not b.phi:
            continue
        st = fstate(f)
        ks = j.kinds(st, b.el)
        if not (ks & set(j.wants)):
            continue
        if u.a[1] is not acct:
            if ks <= {'amount', 'blank'} and altered(u.a[1], acct):
                j.R.bad(j.rule, s.where, 'balances: a posting counts for %s, not for its account' % pp(u.a[1]), fstr(f))
            elif tame(u.a[1]) and ks <= {'amount', 'blank'} and not any(x.op == 'app' for x in walk(u.a[1])):
                j.R.bad(j.rule, s.where, 'balances: a posting counts for %s, not for its account' % pp(u.a[1]), fstr(f))
            continue
        base, ams = pools.flat(u.a[2])
        has = fdec(f, raw('has', b.phi, acct))
        if base is pools.empty(s.eng) and has != 0:
            j.R.bad(j.rule, s.where, 'balances: what was counted before is lost', fstr(f))


def real_value(ana, j):
    """Account::process_entry"""
    P = 'account::Account::process_entry'
    fs = ana.adt('account::Account')['variants'][0]['fields']
    ana.need_fields('account::Account', 'name', 'real_value')
    s = ana.summ(P, inline=(P,), opaque=('envelope::Envelope::process_entry',), models=pools.models(), key='pools')
    R, what = j.R, 'account values'
    posts = F(Sym('P1'), 'postings')
    name, old = F(Sym('P0'), 'name'), F(Sym('P0'), 'real_value')
    for st, val in s.outs:
        if not is_ok(val):
            continue
        m = ana.mem(st, 0)
        new = m.a[2 + fs.index('real_value')] if m is not None and m.op == 'agg' else old
        if new is old:
            none = E.decide(st, Eq(raw('len', posts), Int(0)))
            conds = [k for k in st.facts if isinstance(k, T) and not (k.op == 'found' and k.a[0].op == 'loop' and E.decide(st, k) == 0)]
            if none == 1:
                continue
            if not conds or all(tame(k) for k in conds) and not any(contains(k, lambda x: x is posts) for k in conds):
                if set(j.wants) & {'amount', 'blank'}:
                    R.bad(j.rule, s.where, 'account values: no posting is counted', facts_str(st))
            else:
                R.unk(j.rule, s.where, 'account values: no posting is counted under ' + '; '.join(facts_str(st))[:90])
            continue
        a = j.whole(s, what, st, new, posts)
        if a is None:
            continue
        if a.init is not old:
            R.unk(j.rule, s.where, 'account values start from ' + pp(a.init)[:60])
            continue
        j.rows(s, what, a.rows, a.el, Sym('P1'), a.phi, split_pool(a.phi), lambda o, x: o(Eq(x, name)))


def register(ana, j):
    """Entry::as_register_data"""
    P = 'entry::Entry::as_register_data'
    fs = ana.adt('entry::EntryRegisterData')['variants'][0]['fields']
    ana.need_fields('entry::EntryRegisterData', 'amounts')
    s = ana.summ(P, inline=(P,), models=pools.models(), key='pools')
    R, what = j.R, 'register'
    posts = F(Sym('P0'), 'postings')
    seen = set()
    for st, val in s.outs:
        if not is_ok(val):
            continue
        o = payload_ok(val)
        p = payload(o) if o is not None else None
        t = None
        if p is not None and p.op == 'agg':
            t = p.a[2 + fs.index('amounts')]
        else:
            z = [k.a[0] for k in st.facts if isinstance(k, T) and k.op == 'pzero' and E.decide(st, k) == 1]
            if len(z) == 1:
                t = z[0]
        if t is None and o is not None and o.op == 'agg' and o.a[0] == OPT and o.a[1] == 0:
            # left out though its total is not zero, and nothing else asked that does not end in an error elsewhere
            nz = [k for k in st.facts if isinstance(k, T) and k.op == 'pzero' and E.decide(st, k) == 0]
            rest = [k for k in st.facts if isinstance(k, T) and k.op != 'pzero']
            errs = [s2 for s2, v2 in s.outs if is_err(v2)]
            if len(nz) == 1 and all(k.op == 'found' and E.decide(st, k) == 0 and any(E.decide(s2, k) == 1 for s2 in errs) for k in rest):
                R.bad(j.rule, s.where, 'register: an entry is left out when what it moves is not zero', facts_str(st))
                continue
        if t is None:
            R.unk(j.rule, s.where, 'register: left out under ' + '; '.join(facts_str(st))[:90])
            continue
        if t in seen:
            continue
        seen.add(t)
        a = j.whole(s, what, st, t, posts)
        if a is None:
            continue
        if a.init is not pools.empty(s.eng):
            R.unk(j.rule, s.where, 'register: the amount starts from ' + pp(a.init)[:60])
            continue
        pat = raw('fld', Sym('P2'), 'Some.0')

        def chosen(o, x):
            if o(Eq(discr(Sym('P2')), Int(1))):
                return o(app01('str::contains', x, pat))
            return o(app01('str::starts_with', x, Str('asset')))
        j.rows(s, what, a.rows, a.el, Sym('P0'), a.phi, split_pool(a.phi), chosen)


def app01(n, *a):
    x = raw('app', n, *a)
    E.DOM.setdefault(x, frozenset((0, 1)))
    return x
