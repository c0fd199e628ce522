"""A calendar domain: dates as (year, month, day of the month) relative to symbolic dates.

A date term is normalised to a symbolic date plus a number of days, or to a year
relative to a symbolic year, a month and a day (the first, the last, a named day,
a named day or the last). Months and weekdays have few values, so a path is split
over them on demand and every month computation folds to a constant; which named
days a month has is a fact of the path. A question that needs anything else is
open (Open), never answered by guessing."""
from fractions import Fraction
from math import gcd
from .base import *

NOW = 'chrono::Local::now'


class Open(Exception):
    pass


class Need(Exception):
    def __init__(self, key, dom):
        self.key, self.dom = key, dom


class Never_(Exception):
    """the case cannot happen"""


def tail(t):
    return t.a[0].split('::')[-1] if isinstance(t, T) and t.op == 'app' and isinstance(t.a[0], str) else None


def some(t):
    """x of x.Some.0"""
    return t.a[0] if t.op == 'fld' and t.a[1] == 'Some.0' else None


def quo(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


class Case:
    """One path under a choice of months, weekdays and distances."""

    def __init__(self, facts, pick, start=None, links=None, period=14):
        self.facts, self.pick, self.start, self.links, self.period = facts, pick, start, links or {}, period
        self.exists, self.rels, self.open, self.wds = {}, [], [], []
        self.memo = {}

    def need(self, key, dom):
        if key in self.pick:
            return self.pick[key]
        raise Need(key, dom)

    # ---------------------------------------------------------------- numbers
    def num(self, t):
        """{symbol: coefficient, None: constant}"""
        n = num(t) if t.op in ('int', 'num', 'flt', 'lin') else None
        if n is not None:
            return {None: Fraction(n)}
        if t.op == 'lin':
            r = {None: Fraction(t.a[0])}
            for x, c in t.a[1]:
                for s, k in self.num(x).items():
                    r[s] = r.get(s, 0) + c * k
            return {s: k for s, k in r.items() if k or s is None}
        if t.op in ('idiv', 'rem'):
            a, b = self.const(t.a[0]), self.const(t.a[1])
            if not b:
                raise Never_()
            return {None: Fraction(quo(a, b) if t.op == 'idiv' else a - b * quo(a, b))}
        if t.op in ('max', 'min'):
            xs = [self.const(x) for x in t.a]
            return {None: Fraction(max(xs) if t.op == 'max' else min(xs))}
        if t.op == 'loopval':
            return self.loop(t)
        n = tail(t)
        if n in ('year', 'month', 'month0'):
            d = self.date(t.a[1])
            if d[0] == 'b':
                m = self.month(d)
                y = {d: Fraction(1), None: Fraction(0)}
            else:
                y, m = dict(d[1]), d[2]
            return y if n == 'year' else {None: Fraction(m - (n == 'month0'))}
        if n in ('rem_euclid', 'div_euclid') and len(t.a) == 3:
            a, b = self.const(t.a[1]), self.const(t.a[2])
            if b <= 0:
                raise Open('euclid')
            return {None: Fraction(a % b if n == 'rem_euclid' else a // b)}
        if n in ('num_days_from_monday', 'number_from_monday', 'num_days_from_sunday', 'number_from_sunday'):
            w = self.wday(t.a[1])
            w = w if 'monday' in n else (w + 1) % 7
            return {None: Fraction(w + (n.startswith('number')))}
        if n == 'days_since' and len(t.a) == 3:
            return {None: Fraction((self.wday(t.a[1]) - self.wday(t.a[2])) % 7)}
        if n in ('num_days', 'num_weeks'):
            d = self.dist(t.a[1])
            return {None: Fraction(d if n == 'num_days' else quo(d, 7))}
        if t.op == 'discr' or t.op in ('lt', 'eq', 'not'):
            raise Open(pp(t, 3))
        raise Open(pp(t, 4))

    def const(self, t):
        d = self.num(t)
        if any(s is not None for s in d):
            raise Open(pp(t, 3))
        c = d[None]
        if c.denominator != 1:
            raise Open('fraction')
        return int(c)

    def dist(self, t):
        """days from one symbolic date to another"""
        if tail(t) in ('signed_duration_since', 'sub') and len(t.a) == 3:
            a, b = self.key(t.a[1]), self.key(t.a[2])
            if a[0] == 'b' and b[0] == 'b':
                if a[1] is b[1]:
                    return a[2] - b[2]
                return self.need(('dist', a[1], b[1]), range(0, self.period * 2)) + a[2] - b[2]
        raise Open(pp(t, 3))

    def wday(self, t):
        if tail(t) == 'weekday':
            d = self.key(t.a[1])
            if d[0] != 'b':
                raise Open('weekday of ' + pp(t, 3))
            return (self.need(('wday', d[1]), range(7)) + d[2]) % 7
        if t.op in ('fld', 'sym'):
            return self.need(('weekday', t), range(7))
        raise Open(pp(t, 3))

    def loop(self, t):
        """the value of a number at the end of a loop over numbers only"""
        if t in self.memo:
            return self.memo[t]
        lp = loop_of(t.a[0])
        if lp.it is not None:
            raise Open('loop')
        keys = [k for k, _ in lp.inits]
        cur = {}
        for k, v in lp.inits:
            try:
                cur[k] = self.num(v)
            except Open:
                pass
        for _ in range(200):
            env = {raw('phi', lp.depth, k): v for k, v in cur.items()}
            sub_ = Sub(self, env)
            go = []
            for f, u, ev in lp.parts:
                if all(sub_.holds(k, v) for k, v in f if isinstance(k, T)):
                    go.append(u)
            if not go:
                break
            if len(go) > 1:
                raise Open('loop')
            new = {}
            for k, v in go[0]:
                if k in cur:
                    try:
                        new[k] = sub_.num(v)
                    except Open:
                        cur.pop(k)
            cur.update({k: v for k, v in new.items() if k in cur})
        else:
            raise Open('loop')
        if t.a[1] not in cur:
            raise Open('loop')
        self.memo[t] = cur[t.a[1]]
        return cur[t.a[1]]

    # ---------------------------------------------------------------- dates
    def off(self, t):
        """(term, number of days added to it)"""
        n, x = 0, t
        while True:
            y = some(x)
            if y is not None and tail(y) in ('pred_opt', 'succ_opt'):
                n += 1 if tail(y) == 'succ_opt' else -1
                x = y.a[1]
            elif tail(x) in ('pred', 'succ'):
                n += 1 if tail(x) == 'succ' else -1
                x = x.a[1]
            elif tail(x) in ('add', 'sub') and len(x.a) == 3 and self.span(x.a[2]) is not None:
                n += self.span(x.a[2]) * (1 if tail(x) == 'add' else -1)
                x = x.a[1]
            elif y is not None and tail(y) in ('checked_add_days', 'checked_sub_days', 'checked_add_signed', 'checked_sub_signed') and self.span(y.a[2]) is not None:
                n += self.span(y.a[2]) * (1 if 'add' in tail(y) else -1)
                x = y.a[1]
            else:
                return x, n

    def span(self, t):
        """a number of days"""
        if some(t) is not None:
            t = some(t)
        k = tail(t)
        if k in ('days', 'try_days') or k == 'new' and 'Days' in t.a[0]:
            return self.const(t.a[1])
        if k in ('weeks', 'try_weeks'):
            return 7 * self.const(t.a[1])
        return None

    def months(self, t):
        if tail(t) == 'new' and 'Months' in t.a[0]:
            return self.const(t.a[1])
        return None

    def month(self, d):
        """month of a symbolic date"""
        if d in self.links:
            return self.month(self.links[d])
        return self.need(('month', d), range(1, 13))

    def base(self, t, n):
        s = self.start
        if t.op == 'max' and s is not None and len(t.a) == 2:
            o = [self.off(x) for x in t.a]
            for a, b in (o, o[::-1]):
                if a[0].op == 'app' and a[0].a[0] == NOW and b[0] is s and a[1] - b[1] == 1:
                    return ('b', raw('ref'), n + a[1])
        return ('b', t, n)

    def day(self, t):
        """a day of the month"""
        try:
            return ('n', self.const(t))
        except Open:
            pass
        if tail(t) == 'day':
            d = self.date(t.a[1])
            return d[3] if d[0] == 'ym' and d[3][0] == 't' else ('of', d)
        return ('t', t)

    def has(self, y, m, day):
        """whether the month has the day: 1, 0 or None"""
        if not 1 <= m <= 12:
            return 0
        if day[0] == 'n':
            return 1 if 1 <= day[1] <= 28 else 0 if day[1] < 1 or day[1] > 31 else None
        if day[0] == 'of' and day[1][0] == 'b' and (dict(y), m) == ({day[1]: 1, None: 0}, self.month(day[1])):
            return 1
        return self.exists.get((y, m, day))

    def ymd(self, t):
        """(year, month, day) a fallible date constructor is asked for"""
        n = tail(t)
        if n == 'from_ymd_opt':
            return frozenset(self.num(t.a[1]).items()), self.const(t.a[2]), self.day(t.a[3])
        if n in ('with_day', 'with_month', 'with_year', 'with_day0', 'with_month0'):
            d = self.date(t.a[1])
            if d[0] == 'b':
                y, m, day = frozenset({d: Fraction(1), None: Fraction(0)}.items()), self.month(d), ('of', d)
            else:
                y, m, day = d[1:]
            if n == 'with_day':
                return y, m, self.day(t.a[2])
            if n == 'with_day0':
                raise Open(n)
            if day[0] in ('last', 'clamp'):
                raise Open(n)
            if n == 'with_year':
                return frozenset(self.num(t.a[2]).items()), m, day
            return y, self.const(t.a[2]) + (n == 'with_month0'), day
        return None

    def shift(self, y, m, k):
        i = m - 1 + k
        y = dict(y)
        y[None] = y.get(None, Fraction(0)) + i // 12
        return frozenset(y.items()), i % 12 + 1

    def date(self, t):
        """('b', symbolic date, days) or ('ym', year, month, day)"""
        x, n = self.off(t)
        d = None
        y = some(x)
        if y is not None and tail(y) is not None:
            q = self.ymd(y)
            if q is not None:
                h = self.has(*q)
                if h == 0:
                    raise Never_()
                d = ('ym',) + q
        mo = None
        if tail(x) in ('add', 'sub') and len(x.a) == 3 and self.months(x.a[2]) is not None:
            mo = (x.a[1], self.months(x.a[2]) * (1 if tail(x) == 'add' else -1))
        elif y is not None and tail(y) in ('checked_add_months', 'checked_sub_months') and self.months(y.a[2]) is not None:
            mo = (y.a[1], self.months(y.a[2]) * (1 if 'add' in tail(y) else -1))
        if mo:
            d = self.date(mo[0])
            if d[0] == 'b':
                d = ('ym', frozenset({d: Fraction(1), None: Fraction(0)}.items()), self.month(d), ('of', d))
            y_, m_ = self.shift(d[1], d[2], mo[1])
            dd = d[3]
            if dd[0] == 'last':
                raise Open('months from the last day')
            d = ('ym', y_, m_, dd if dd[0] == 'clamp' or dd[0] == 'n' and dd[1] <= 28 else ('clamp', dd))
        if d is None:
            return self.base(x, n)
        if n == 0:
            if d[3][0] == 'of' and d[3][1][0] == 'b' and dict(d[1]) == {d[3][1]: 1, None: 0} and d[2] == self.month(d[3][1]):
                return d[3][1]
            return d
        if d[3] == ('n', 1) and n == -1:
            y_, m_ = self.shift(d[1], d[2], -1)
            return ('ym', y_, m_, ('last',))
        if d[3][0] == 'n' and isinstance(d[3][1], int) and 1 <= d[3][1] <= 28 and 1 <= d[3][1] + n <= 28:
            return ('ym', d[1], d[2], ('n', d[3][1] + n))
        raise Open('days from ' + pp(x, 3))

    key = date

    def named(self, d, day):
        """the date with the last day of the month read as the named day if the month has no such day"""
        if d[0] != 'ym':
            return d
        if d[3] == day or d[3] == ('clamp', day) or d[3] == ('last',) and self.has(d[1], d[2], day) == 0:
            return ('ym', d[1], d[2], ('D', day))
        if d[3][0] == 'clamp' and self.has(d[1], d[2], d[3][1]) == 1:
            return ('ym', d[1], d[2], d[3][1])
        return d

    # ---------------------------------------------------------------- facts
    def holds(self, k, v):
        """decide a fact about numbers: True, False; Open if it is not one"""
        if v[0] not in ('=', '!', 'in'):
            raise Open('fact')
        if k.op in ('lt', 'eq'):
            a, b = self.num(k.a[0]), self.num(k.a[1])
            d = dict(a)
            for s, c in b.items():
                d[s] = d.get(s, 0) - c
            if any(c for s, c in d.items() if s is not None):
                raise Open('symbolic')
            x = d.get(None, 0)
            r = int(x < 0) if k.op == 'lt' else int(x == 0)
        elif k.op in ('app', 'lin', 'loopval', 'phi', 'idiv', 'rem'):
            x = self.num(k)
            if any(s is not None for s in x):
                raise Open('symbolic')
            r = x[None]
        else:
            raise Open('fact')
        return r == v[1] if v[0] == '=' else (r in v[1]) == (v[0] == 'in')

    def weekday_fact(self, k):
        if k.op == 'eq':
            for a, b in (k.a, k.a[::-1]):
                if tail(a) == 'weekday':
                    return a, b
        return None

    def take(self):
        """read the facts of the path; Never_ if they contradict the calendar"""
        later = []
        for k, v in sorted(((k, v) for k, v in self.facts if isinstance(k, T)), key=lambda kv: kv[0].id):
            if k.op == 'discr':
                n = tail(k.a[0])
                if n in ('pred_opt', 'succ_opt', 'checked_add_months', 'checked_sub_months', 'checked_add_days', 'checked_sub_days', 'checked_add_signed', 'checked_sub_signed', 'try_days', 'try_weeks'):
                    if v != ('=', 1):
                        if n == 'pred_opt' and self.start is not None and k.a[0].a[1] is self.start:
                            later.append((k, v))
                            continue
                        raise Never_()
                    continue
                if n in ('from_ymd_opt', 'with_day', 'with_month', 'with_year', 'with_month0'):
                    try:
                        q = self.ymd(k.a[0])
                    except Open:
                        self.open.append(k)
                        continue
                    if v[0] != '=':
                        self.open.append(k)
                        continue
                    h = self.has(*q)
                    if h is None:
                        self.exists[q] = v[1]
                    elif h != v[1]:
                        raise Never_()
                    continue
                later.append((k, v))
            else:
                later.append((k, v))
        self.rest = []
        for k, v in later:
            try:
                if not self.holds(k, v):
                    raise Never_()
                continue
            except Open:
                pass
            if k.op == 'discr' or k.op == 'found':
                self.rest.append((k, v))
                continue
            w = self.weekday_fact(k)
            if w:
                self.wds.append((w, k, v))
                continue
            if k.op in ('lt', 'eq') and v[0] == '=':
                if k.op == 'lt' and tail(k.a[0]) == 'day' and self.dayfact(k, v):
                    continue
                try:
                    self.rels.append((k.op, self.date(k.a[0]), self.date(k.a[1]), v[1]))
                    continue
                except Open:
                    pass
            self.open.append(k)

    def dayfact(self, k, v):
        """`day of a date < a named day`, as an order of dates of that month"""
        d = self.date(k.a[0].a[1])
        day = self.day(k.a[1])
        if d[0] != 'b' or day[0] not in ('t', 'of'):
            return False
        y = frozenset({d: Fraction(1), None: Fraction(0)}.items())
        h = self.has(y, self.month(d), day)
        if h == 1:
            self.rels.append(('lt', d, ('ym', y, self.month(d), day), v[1]))
            return True
        if h == 0 and v[1] == 1:
            return True
        return False

    def delta(self, ref, x, day=None):
        """bounds of the number of days from ref to x"""
        lo, hi = None, None
        def norm(d):
            return self.named(d, day) if day is not None else d
        x = norm(x)
        def diff(a, b):
            return b[2] - a[2] if a[0] == 'b' and b[0] == 'b' and a[1] is b[1] else 0 if a == b else None
        k = diff(ref, x)
        if k is not None:
            return k, k
        ne0 = False
        for op, a, b, v in self.rels:
            a, b = norm(a), norm(b)
            i, j = diff(ref, a), diff(x, b)
            sgn = 1
            if i is None or j is None:
                i, j = diff(ref, b), diff(x, a)
                sgn = -1
            if i is None or j is None:
                continue
            # a = ref + i, b = x + j (sgn 1) or b = ref + i, a = x + j
            if op == 'lt':
                if sgn == 1:      # ref + i < x + j
                    if v:
                        lo = max(lo, i - j + 1) if lo is not None else i - j + 1
                    else:
                        hi = min(hi, i - j) if hi is not None else i - j
                else:             # x + j < ref + i
                    if v:
                        hi = min(hi, i - j - 1) if hi is not None else i - j - 1
                    else:
                        lo = max(lo, i - j) if lo is not None else i - j
            elif v:
                lo = max(lo, i - j) if lo is not None else i - j
                hi = min(hi, i - j) if hi is not None else i - j
            elif i == j:
                ne0 = True
        if ne0 and lo == 0:
            lo = 1
        if ne0 and hi == 0:
            hi = -1
        if lo is not None and hi is not None and lo > hi:
            raise Never_()
        return lo, hi

    def after(self, ref, x, day=None):
        """the possible answers to `x is after ref`"""
        lo, hi = self.delta(ref, x, day)
        return {1} if lo is not None and lo >= 1 else {0} if hi is not None and hi <= 0 else {0, 1}


class Sub(Case):
    """numbers with loop variables bound"""
    def __init__(self, case, env):
        self.__dict__.update(case.__dict__)
        self.env = env

    def num(self, t):
        if t in self.env:
            return self.env[t]
        return Case.num(self, t)

    def holds(self, k, v):
        return Case.holds(self, k, v)


def cases(facts, fn, limit=20000, **kw):
    """run fn on every case of the path that can happen; what fn needs to know is split on demand"""
    todo = [{}]
    n = 0
    while todo:
        pick = todo.pop()
        n += 1
        if n > limit:
            raise Open('too many cases')
        c = Case(facts, pick, **kw)
        try:
            c.take()
            fn(c)
        except Never_:
            continue
        except Need as e:
            for x in e.dom:
                todo.append({**pick, e.key: x})
    return n
