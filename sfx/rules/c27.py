"""Due dates match the schedule.

Every path of the functions that give an envelope's next and last due date is read
in a calendar domain (cal.py) and compared with the schedule's definition, for each
kind of schedule: the month and weekday computations fold to constants in each of
the twelve months and seven weekdays, the comparisons with today bound what the
answer may be. Schedules reached by a loop are compared by their start, step and
end."""
from math import gcd
from ..base import *
from .. import cal
from ..cal import Open, Never_, Need, NOW, cases, tail

EN, FN, FL, FP = 'envelope::Envelope::get_next_due_date', 'envelope::Frequency::get_next_due_date', 'envelope::Frequency::get_last_due_date', 'envelope::Frequency::parse'
ND = 'envelope::Frequency::next_date_by_day_of_month'
NAMES = {'Never': 'never due', 'Once': 'due once', 'Weekly': 'due every week', 'Biweekly': 'due every other week', 'Monthly': 'due every month', 'Bimonthly': 'due every other month', 'Annually': 'due every year'}
OPT = 'std::option::Option'
REF = raw('ref')


class Bad(Exception):
    pass


def run(ana, R):
    p0 = Sym('P0')
    now = raw('app', NOW)
    today = ('b', now, 0)
    adt = ana.adt('envelope::Frequency')
    VAR = [v['name'] for v in adt['variants']]

    def periods(s):
        """a common multiple of what distances are divided by"""
        l = 14
        for st, v in s.outs:
            for t in [v] + [k for k in st.facts if isinstance(k, T)]:
                for x in walk(t):
                    if x.op in ('idiv', 'rem') and num(x.a[1]):
                        k = abs(int(num(x.a[1]))) * (7 if any(tail(y) == 'num_weeks' for y in walk(x.a[0])) else 1)
                        l = l * k // gcd(l, k)
        return l if l <= 1500 else 14

    def plain(c):
        if c.open:
            raise Open('; '.join(pp(k, 4) for k in c.open[:3]))
        for k, z in c.rest:
            if k.op != 'discr':
                raise Open(pp(k, 4))
            x = k.a[0]
            while x.op == 'fld':
                x = x.a[0]
            if x.op != 'sym' and not (x.op == 'app' and (x.a[0] == FN or tail(x) == 'pred_opt')):
                raise Open(pp(k, 4))

    def opt(v):
        """(1, x) | (0, None)"""
        if isinstance(v, T) and v.op == 'agg' and v.a[0] == OPT:
            return (1, v.a[2]) if v.a[1] == 1 else (0, None)
        raise Open('result ' + pp(v, 4))

    def show(c, d):
        if d is None:
            return 'no date'
        if d[0] == 'b':
            return '%s%s' % ('the reference date' if d[1] is REF else pp(d[1], 4), '' if not d[2] else ' %+d days' % d[2])
        y = ' + '.join('%s%s' % ('year of ' if s is not None else '', (pp(s[1], 3) if s[2] == 0 else '%s %+d days' % (pp(s[1], 3), s[2])) if s is not None else int(k)) for s, k in sorted(d[1], key=lambda x: x[0] is None) if s is not None or k)
        dd = d[3]
        dd = {'last': 'its last day', 'n': 'day %s' % str(dd[-1]), 'D': 'the named day or its last', 'clamp': 'a day or its last', 't': 'the named day', 'of': 'a day'}[dd[0]]
        return 'month %d of %s, %s' % (d[2], y, dd)

    def same(c, res, exp, day=None):
        if res is None or exp is None:
            return res is exp
        if day is not None:
            res, exp = c.named(res, day), c.named(exp, day)
        return res == exp

    def result(c, v):
        has, x = opt(v)
        return (x, c.date(x)) if has else (None, None)

    def expect(c, x, res, exp, day, what):
        if not same(c, res, exp, day):
            if res is not None and res[0] == 'b' and res[1].op not in ('app', 'fld', 'sym', 'ref'):
                raise Open('result ' + pp(x, 4))
            if res is not None and res[0] == 'b' and res[1].op == 'app' and res[1].a[0] != NOW:
                raise Open('result ' + pp(x, 4))
            plain(c)
            raise Bad('%s: the date given is %s, not %s' % (what, show(c, res), show(c, exp)))

    def ymof(c, ref):
        if ref[0] != 'b':
            raise Open('reference')
        return frozenset({ref: Fraction(1), None: Fraction(0)}.items()), c.month(ref)

    def in_turn(c, ref, x, res, dates, day, what, whats):
        """the first of the dates that is after ref"""
        for i, d in enumerate(dates):
            a = {1} if i == len(dates) - 1 else c.after(ref, d, day)
            if 1 in a:
                expect(c, x, res, d, day, what + whats[i])
            if 0 not in a:
                return

    # -------------------------------------------------------------- loops
    def walkloop(c, v, var):
        lp = loop_of(v.a[0])
        key = v.a[1]
        inits = dict(lp.inits)
        if lp.it is not None or key not in inits:
            raise Open('loop ' + pp(v, 3))
        return lp, inits[key], raw('phi', lp.depth, key), [(f, dict(u).get(key), ev) for f, u, ev in lp.parts]

    def weekly(c, ref, w, v, what):
        x = v
        d = None
        if v.op == 'loopval':
            lp, init, phi, parts = walkloop(c, v, w)
            i = c.date(init)
            k = c.delta(ref, i)
            if k[0] is None or k[0] != k[1]:
                raise Open('loop from %s' % pp(init, 3))
            steps = []
            for f, u, ev in parts:
                if u is None or u is phi:
                    raise Open('loop')
                y, n = c.off(u)
                if y is not phi:
                    raise Open('loop step %s' % pp(u, 3))
                fs = [(q, z) for q, z in f if isinstance(q, T)]
                if len(fs) == 1 and fs[0][1] == ('=', 1) and c.weekday_fact(fs[0][0]) and c.weekday_fact(fs[0][0])[0].a[1] is phi and c.weekday_fact(fs[0][0])[1] is w:
                    plain(c)
                    raise Bad('%s: the search for the weekday goes on while the day is the one named, and ends at any other' % what)
                if len(fs) != 1 or not c.weekday_fact(fs[0][0]) or c.weekday_fact(fs[0][0])[0].a[1] is not phi or c.weekday_fact(fs[0][0])[1] is not w or fs[0][1] != ('=', 0):
                    raise Open('loop condition')
                steps.append(n)
            end = [z for (a, b), q, z in c.wds if a.a[1] is v and b is w]
            if end != [('=', 1)] or not steps:
                raise Open('loop end')
            plain(c)
            if k[0] != 1:
                raise Bad('%s: the search for the weekday starts %d days after the day before the first possible one, not 1' % (what, k[0]))
            if any(n != 1 for n in steps):
                raise Bad('%s: the search for the weekday goes by %d days' % (what, [n for n in steps if n != 1][0]))
            return
        d = c.date(x)
        n = c.delta(ref, d)
        if n[0] is None or n[0] != n[1]:
            if d[0] == 'b' and d[1] is now and ref[1] is REF:
                plain(c)
                raise Bad('%s: the date is counted from today although the envelope starts later' % what)
            raise Open('result ' + pp(x, 4))
        t = (c.need(('wday', ref[1]), range(7)) + ref[2]) % 7
        exp = (c.need(('weekday', w), range(7)) - t - 1) % 7 + 1
        for (a, b), q, z in c.wds:
            if z[0] != '=' or int(c.wday(a) == c.wday(b)) != z[1]:
                if z[0] == '=':
                    raise Never_()
                raise Open('weekday')
        if n[0] != exp:
            plain(c)
            raise Bad('%s: the date is %d days later where the weekday comes in %d' % (what, n[0], exp))

    def guards(c, f, ref, phi):
        """the loop goes on only while the date is not after ref"""
        fs = [(k, z) for k, z in f if isinstance(k, T) and k.op in ('lt', 'eq') and any(y is phi for y in walk(k)) and k.a[0] is not phi or isinstance(k, T) and k.op == 'lt' and k.a[0] is phi]
        g = [(k, z) for k, z in fs if k.op == 'lt' and (k.a[0] is phi or k.a[1] is phi)]
        if len(g) != 1:
            raise Open('loop condition')
        k, z = g[0]
        other = k.a[1] if k.a[0] is phi else k.a[0]
        d = c.date(other)
        if not (d[0] == 'b' and d[1] is ref[1]):
            raise Open('loop condition')
        off = d[2] - ref[2]
        if k.a[0] is phi:
            hi = off - 1 if z == ('=', 1) else None
        else:
            hi = off if z == ('=', 0) else None
        if hi is None:
            raise Open('loop condition')
        return hi                     # it goes on exactly while date - ref <= hi

    def steploop(c, ref, s, v, what, step):
        lp, init, phi, parts = walkloop(c, v, None)
        i = c.date(init)
        if i != c.date(s):
            if i[0] == 'b' and i[1].op in ('fld', 'ref') or i == today:
                plain(c)
                raise Bad('%s: the dates are counted from %s, not from the first one' % (what, show(c, i)))
            raise Open('loop from %s' % pp(init, 3))
        n = 0
        for f, u, ev in parts:
            if u is None:
                raise Open('loop')
            hi = guards(c, f, ref, phi)
            plain_ = hi == 0
            step(c, f, u, phi)
            n += 1
            if not plain_:
                plain(c)
                raise Bad('%s: dates up to %d days after the reference are passed over' % (what, hi) if hi > 0 else '%s: a date on or before the reference ends the search' % what)
        if not n:
            raise Open('loop')

    def biweekly(c, ref, s, v, what):
        sk = c.date(s)
        x = v
        if v.op == 'loopval':
            def step(c, f, u, phi):
                y, n = c.off(u)
                if y is not phi:
                    raise Open('loop step %s' % pp(u, 3))
                if n != 14:
                    plain(c)
                    raise Bad('%s: dates are %d days apart, not 14' % (what, n))
            steploop(c, ref, s, v, what, step)
            return
        d = c.date(v)
        a = c.after(ref, sk)
        if 1 in a:
            expect(c, x, d, sk, None, what + ', the first date being after the reference')
        if 0 not in a:
            return
        if not (d[0] == 'b' and d[1] is sk[1]):
            if d[0] == 'b' and d[1] in (now, REF):
                plain(c)
                raise Bad('%s: dates are counted from %s, not from the first one' % (what, show(c, d)))
            raise Open('result ' + pp(x, 4))
        nd = c.need(('dist', ref[1], sk[1]), range(0, c.period * 2)) + ref[2] - sk[2]
        lo, hi = c.delta(ref, sk)
        if nd < 0 or lo is not None and -nd < lo or hi is not None and -nd > hi:
            return
        exp = nd // 14 * 14 + 14
        if d[2] - sk[2] != exp:
            plain(c)
            raise Bad('%s: %d days after the first date the next one given is %d days after it, not %d' % (what, nd, d[2] - sk[2], exp))

    def bimonthly(c, ref, s, day, v, what):
        if v.op == 'loopval':
            def step(c, f, u, phi):
                def one(k):
                    b = ('b', phi, 0)
                    y, m = k.shift(*ymof(k, b), 2)
                    dk = k.day(day)
                    expect(k, u, k.date(u), ('ym', y, m, ('D', dk)), dk, what + ', the date after one of them')
                cases(list(f), one, start=c.start)
            steploop(c, ref, s, v, what, step)
            return
        d = c.date(v)
        sk = c.date(s)
        a = c.after(ref, sk)
        if 1 in a:
            expect(c, v, d, sk, None, what + ', the first date being after the reference')
        if 0 in a:
            if d == sk:
                plain(c)
                raise Bad('%s: the first date is given although it may be over' % what)
            raise Open('result ' + pp(v, 4))

    def monthly(c, ref, day, v, what):
        x, res = v, (c.date(v) if v is not None else None)
        dk = c.day(day)
        y, m = ymof(c, ref)
        y1, m1 = c.shift(y, m, 1)
        if res is not None and res[0] == 'b' and res[1].op == 'loopval':
            raise Open('result ' + pp(x, 4))
        in_turn(c, ref, x, res, [('ym', y, m, ('D', dk)), ('ym', y1, m1, ('D', dk))], dk, what, [', this month\'s date being still to come', ', this month\'s date being over'])

    def annually(c, ref, s, v, what):
        sk = c.date(s)
        res = c.date(v)
        a = c.after(ref, sk)
        if 1 in a:
            expect(c, v, res, sk, None, what + ', the first date being after the reference')
        if 0 not in a:
            return
        dk = ('of', sk)
        y, _ = ymof(c, ref)
        m = c.month(sk)
        y1, _ = c.shift(y, m, 12)
        in_turn(c, ref, v, res, [('ym', y, m, ('D', dk)), ('ym', y1, m, ('D', dk))], dk, what, [', this year\'s date being still to come', ', this year\'s date being over'])

    def fields(F, var):
        return [raw('fld', F, '%s.%d' % (var, i)) for i in range(2)]

    def next_due(c, F, var, ref, v):
        """compare the answer for one kind of schedule"""
        what = 'an envelope %s' % NAMES[var]
        a, b = fields(F, var)
        has, x = opt(v)
        if var == 'Never':
            if has:
                plain(c)
                raise Bad('%s has a next due date' % what)
            return
        if var == 'Once':
            k = c.after(ref, c.date(a))
            if 1 in k:
                if not has:
                    plain(c)
                    raise Bad('%s has no next due date although its date may be still to come' % what)
                expect(c, x, c.date(x), c.date(a), None, what)
            if 0 in k and has:
                plain(c)
                raise Bad('%s has a next due date when its date is over' % what)
            return
        if not has:
            plain(c)
            raise Bad('%s has no next due date' % what)
        if var == 'Weekly':
            weekly(c, ref, a, x, what)
        elif var == 'Biweekly':
            biweekly(c, ref, a, x, what)
        elif var == 'Monthly':
            monthly(c, ref, a, x, what)
        elif var == 'Bimonthly':
            bimonthly(c, ref, a, b, x, what)
        else:
            annually(c, ref, a, x, what)

    def variants(facts, F):
        v = dict((k, z) for k, z in facts if isinstance(k, T)).get(discr(F))
        if v is None:
            return list(range(len(VAR)))
        if v[0] == '=':
            return [int(v[1])]
        return [i for i in range(len(VAR)) if (i in [int(x) for x in v[1]]) == (v[0] == 'in')]

    def judge(rule, where, facts, fn, what, fx, **kw):
        """run fn on all cases of the path; one verdict for it"""
        n = [0]
        def one(c):
            fn(c)
            n[0] += 1
        try:
            cases(facts, one, **kw)
        except Bad as e:
            R.bad(rule, where, str(e), fx)
            return
        except Open as e:
            R.unk(rule, where, '%s: %s' % (what, str(e)[:200]))
            return
        if n[0]:
            R.ok(rule, where, '%s (%d cases)' % (what, n[0]))

    def level(name, F, starting):
        def f():
            ana.fn(name)
            s = ana.summ(name, inline=(name, EN, FN, ND))
            per = periods(s)
            S = raw('fld', starting, 'Some.0') if starting is not None else None
            if not s.outs:
                raise Unknown('no result')
            for st, v in s.outs:
                fl = list(st.facts.items())
                fx = facts_str(st)
                for i in variants(fl, F):
                    var = VAR[i]
                    if var not in NAMES:
                        R.unk('next', s.where, 'schedule %s is not known' % var)
                        continue
                    def one(c, var=var):
                        ref = today
                        if S is not None:
                            has = [z for k, z in c.rest if k is discr(starting)]
                            if has == [('=', 1)]:
                                if any(tail(k.a[0]) == 'pred_opt' and k.a[0].a[1] is S and z == ('=', 0) for k, z in c.rest):
                                    ref = today
                                else:
                                    lo, hi = c.delta(today, ('b', S, 0))
                                    ref = ('b', S, -1) if lo is not None and lo >= 1 else today if hi is not None and hi <= 1 else ('b', REF, 0)
                            elif has != [('=', 0)]:
                                if any(y is starting for k in st.facts if isinstance(k, T) for y in walk(k)) or any(y is starting for y in walk(v)):
                                    raise Open('starting date')
                                ref = ('b', REF, 0)
                        if ref == today or var not in ('Biweekly', 'Bimonthly', 'Annually'):
                            w = v
                            hv, x = opt(v)
                            if hv and S is not None and x.op == 'max' and any(y is S for y in x.a) and var in ('Weekly', 'Monthly', 'Once') and ref != today:
                                plain(c)
                                raise Bad('an envelope %s is given its starting date as a due date, which need not be on its schedule' % NAMES[var])
                            if hv and S is not None and x is S and var in ('Weekly', 'Monthly', 'Never', 'Once') and ref[0:2] != ('b', S):
                                plain(c)
                                raise Bad('an envelope %s is given its starting date as a due date, which need not be on its schedule' % NAMES[var])
                            next_due(c, F, var, ref, w)
                            return
                        # its dates begin no earlier than the starting date, so it makes no difference which is used
                        try:
                            next_due(c, F, var, ref, v)
                        except (Bad, Open) as e:
                            hv, x = opt(v)
                            w = v
                            if hv and x.op == 'max' and len(x.a) == 2 and any(y is S for y in x.a):
                                w = Some([y for y in x.a if y is not S][0])
                            try:
                                next_due(c, F, var, today, w)
                            except (Bad, Open) as e2:
                                raise e2 if isinstance(e2, Bad) and isinstance(e, Bad) else e if isinstance(e, Open) else e2
                    judge('next', s.where, fl, one, NAMES[var], fx, start=S, period=per)
        return f

    def last():
        ana.fn(FL)
        s = ana.summ(FL, inline=(FL,), opaque=(FN,))
        F = p0
        nx = raw('app', FN, F)
        N = raw('fld', nx, 'Some.0')
        if not s.outs:
            raise Unknown('no result')
        for st, v in s.outs:
            fl = list(st.facts.items())
            fx = facts_str(st)
            z = st.facts.get(discr(nx))
            for i in variants(fl, F):
                var = VAR[i]
                if var not in NAMES:
                    continue
                what = 'the last due date of an envelope %s' % NAMES[var]
                a, b = fields(F, var)
                nk = ('b', N, 0)
                def one(c, var=var):
                    for z_ in ([z] if z in (('=', 0), ('=', 1)) else [('=', 0), ('=', 1)]):
                        lastone(c, var, z_)
                def lastone(c, var, z):
                    if z == ('=', 0):
                        if var not in ('Never', 'Once'):
                            return
                    has, x = opt(v)
                    if var == 'Never' or var == 'Once' and z == ('=', 1):
                        if var == 'Never' and z == ('=', 1):
                            return
                        if has:
                            plain(c)
                            raise Bad('%s exists although none is over' % what)
                        return
                    if not has:
                        plain(c)
                        raise Bad('%s does not exist' % what)
                    res = c.date(x)
                    if var == 'Once':
                        expect(c, x, res, c.date(a), None, what)
                    elif var in ('Weekly', 'Biweekly'):
                        expect(c, x, res, ('b', N, -7 if var == 'Weekly' else -14), None, what)
                    elif var in ('Monthly', 'Bimonthly'):
                        dk = c.day(a if var == 'Monthly' else b)
                        y, m = c.shift(*ymof(c, nk), -1 if var == 'Monthly' else -2)
                        expect(c, x, res, ('ym', y, m, ('D', dk)), dk, what)
                    else:
                        sk = c.date(a)
                        y, m = c.shift(*ymof(c, nk), -12)
                        expect(c, x, res, ('ym', y, m, ('D', ('of', sk))), ('of', sk), what)
                links = {nk: ('b', a, 0)} if var == 'Annually' else None
                judge('last', s.where, fl, one, what, fx, links=links)

    def first():
        """the first date of an every-other schedule"""
        ana.fn(FP)
        s = ana.summ(FP, inline=(FP, ND))
        sd = Sym('P2')
        S = raw('fld', sd, 'Some.0')
        for st, v in s.outs:
            if not is_ok(v):
                continue
            q = payload_ok(v) if v.op == 'agg' else None
            if q is None or q.op != 'agg' or not str(q.a[0]).endswith('Frequency'):
                continue
            var = VAR[q.a[1]]
            fl = list(st.facts.items())
            fx = facts_str(st)
            if var == 'Biweekly':
                def one(c):
                    w = None
                    if q.a[2].op == 'loopval':
                        ws = [b for (a, b), k, z in c.wds if a.a[1] is q.a[2]]
                        w = ws[0] if len(ws) == 1 else None
                    if w is None:
                        raise Open('first date %s' % pp(q.a[2], 3))
                    c.open = c.rest = []
                    weekly(c, ('b', S, -1), w, q.a[2], 'the first date of an envelope due every other week')
                judge('first', s.where, fl, one, 'first date every other week', fx)
            elif var == 'Bimonthly':
                def one(c):
                    if q.a[2] is S:
                        raise Open('starting date')
                    c.open = c.rest = []
                    monthly(c, ('b', S, -1), q.a[3], q.a[2], 'the first date of an envelope due every other month')
                judge('first', s.where, fl, one, 'first date every other month', fx)

    def panics():
        """no path on which a date is asked for that no month has"""
        for name, F, inl, opq in ((EN, raw('fld', p0, 'freq'), (EN, FN, ND), ()), (FN, p0, (FN, ND), ()), (FL, p0, (FL,), (FN,)), (FP, None, (FP, ND), ())):
            try:
                ana.fn(name)
            except Missing:
                continue
            s = ana.summ(name, inline=inl, opaque=opq)
            for st, kind, tr, d in s.panics:
                if 'unwrap' not in str(kind) and 'expect' not in str(kind):
                    continue
                fl = list(st.facts.items())
                asked = [k for k, z in fl if isinstance(k, T) and k.op == 'discr' and tail(k.a[0]) in ('from_ymd_opt', 'with_day', 'with_month', 'with_year') and z == ('=', 0)]
                if not asked:
                    continue
                found = []
                def one(c):
                    if F is None:
                        c.open = c.rest = []
                    plain(c)
                    for k in asked:
                        y, m, day = c.ymd(k.a[0])
                        if not 1 <= m <= 12 or day == ('n', 1):
                            raise Bad('month %d is asked for on the way to a due date; the program stops' % m)
                    raise Open('a day that may not exist')
                try:
                    cases(fl, one)
                    R.ok('dates', s.where, 'a date asked for exists')
                except Bad as e:
                    R.bad('dates', s.where, str(e), facts_str(st))
                except Open as e:
                    R.unk('dates', s.where, str(e)[:200])

    R.section('dates', panics)
    R.section('next', level(EN, raw('fld', p0, 'freq'), raw('fld', p0, 'starting_date')))
    R.section('next', level(FN, p0, None))
    R.section('last', last)
    R.section('first', first)
