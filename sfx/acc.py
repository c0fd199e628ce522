"""Accumulators: what a location folded by a loop is, judged row by row (a row is
one partition of the loop's body) against what an element ought to contribute."""
from .base import *

PLAIN = {'lin', 'mul', 'fld', 'elem', 'abs', 'min', 'max', 'int', 'num', 'div', 'sym', 'k', 'from', 'agg', 'str', 'hit', 'after', 'loop', 'phi', 'discr', 'eq', 'lt', 'not', 'loopval', 'cat', 'len', 'mod', 'rem'}


def plain(t):
    """Built from operations whose meaning is fixed."""
    return all(x.op in PLAIN for x in walk(t))


def base_it(it):
    """(list, start, exact?) an iterator runs over; start 0 or a position term; exact is False when
    elements may be left out by position (take, skip, step)."""
    exact = True
    while True:
        if it is None:
            return None, None, False
        if it.op in ('it', 'itm'):
            st = it.a[1]
            return it.a[0], (0 if st == 0 or isinstance(st, T) and num(st) == 0 else st), exact
        if it.op in ('ifilter', 'imap', 'irev', 'ienum', 'ifmap', 'ires', 'ipeek', 'iinspect', 'icloned', 'itakew', 'imapw', 'ilam'):
            it = it.a[0]
        elif it.op == 'ichain':
            for x in it.a:
                l, st, ex = base_it(x)
                if l is None or st != 0:
                    return None, None, False
                exact = exact and ex
            return E.list_of(it), 0, exact
        elif it.op in ('iskip', 'itake', 'iskipw', 'istep'):
            exact = False
            it = it.a[0]
        else:
            return None, None, False


def segs(it):
    """The lists an iterator runs over one after another: [(list, backwards?)] or None."""
    if it is None:
        return None
    if it.op in ('it', 'itm'):
        st = it.a[1]
        if not (st == 0 or isinstance(st, T) and num(st) == 0):
            return None
        return seg_list(it.a[0]) if it.op == 'it' else None
    if it.op == 'irev' and len(it.a) == 1:
        r = segs(it.a[0])
        return None if r is None else [(l, not b) for l, b in reversed(r)]
    if it.op == 'ichain':
        a, b = segs(it.a[0]), segs(it.a[1])
        return None if a is None or b is None else a + b
    if it.op in ('icloned', 'iinspect', 'ipeek', 'ienum'):
        return segs(it.a[0])
    return None


def leaves_out(it):
    """The iterator passes elements over by their position."""
    if it is None or not isinstance(it, T):
        return False
    if it.op in ('it', 'itm'):
        st = it.a[1]
        n = st if isinstance(st, int) else num(st)
        l = it.a[0]
        while l.op in ('reversed', 'concat'):
            if any(leaves_out(raw('it', x, 0)) for x in l.a[1:]):
                return True
            l = l.a[0]
        return n is not None and n > 0 or l.op in ('take', 'from') and num(l.a[1]) is not None
    if it.op in ('iskip', 'itake', 'istep'):
        return len(it.a) > 1 and isinstance(it.a[1], T) and num(it.a[1]) is not None and (it.op == 'itake' or num(it.a[1]) > 0)
    return any(leaves_out(x) for x in it.a if isinstance(x, T) and x.op in E.ITER)


def cut_short(st, lp_term):
    """The loop was left before its end in this partition."""
    return E.decide(st, raw('found', lp_term)) == 1


def seg_list(l):
    if l.op == 'concat':
        return [y for x in l.a for y in seg_list(x)]
    if l.op == 'reversed':
        return [(x, not b) for x, b in reversed(seg_list(l.a[0]))]
    if l.op == 'list' and l.a[0].op in ('it', 'irev', 'ichain'):
        return segs(l.a[0]) or [(l, False)]
    return [(l, False)]


class Acc:
    def __init__(self, t):
        self.t = t
        lp = self.lp = loop_of(t.a[0])
        self.key = t.a[1]
        self.init = dict(lp.inits).get(self.key)
        self.phi = raw('phi', lp.depth, self.key)
        self.rows = [(f, dict(u).get(self.key, self.phi)) for f, u, ev in lp.parts]
        self.lst, self.start, self.exact = base_it(lp.it)
        self.el = None
        if self.lst is not None:
            l = self.lst if self.start == 0 else raw('from', self.lst, self.start)
            self.el = E.elem_of(l, raw('k', lp.depth))

    def deltas(self):
        return [(f, sub(u, self.phi)) for f, u in self.rows]


def acc(t):
    if t.op != 'loopval':
        return None
    a = Acc(t)
    return a if a.init is not None else None


def rows_vs(rows, spec):
    """[(True | False | None, facts, got, expected)] for each row and case of the specification."""
    out = []
    for f, got in rows:
        s = fstate(f)
        for exp, asked, st in outcomes(s, spec):
            if got is exp or num(sub(got, exp)) == 0 or E.decide(st, Eq(got, exp)) == 1:
                out.append((True, f, got, exp))
                continue
            # equal magnitudes recorded as facts
            if not plain(got) or not plain(exp):
                out.append((None, f, got, exp))
                continue
            rel = [r for a, _ in asked for r in related(s, a) if r.op != 'more' and not any(y.op == 'phi' for y in walk(r))]
            out.append((None if rel else False, f, got, exp))
    return out


def verdict(vs):
    """True if all rows agree, False if one definitely differs, None otherwise."""
    if any(v[0] is False for v in vs):
        return False
    return True if all(v[0] for v in vs) else None


def nonneg_counter(t):
    """Every row adds a constant >= 0: the smallest value, or None."""
    a = acc(t)
    if a is None or num(a.init) is None:
        return None
    for f, d in a.deltas():
        n = num(d)
        if n is None or n < 0:
            return None
    return num(a.init)


def not_named(f):
    """Row facts f say that no element of a list names the thing at hand: 1 if the search behind it compares the
    name of every element; 0 if it passes over some; None if there is no such search."""
    r = None
    for k, z in f:
        if isinstance(k, T) and k.op == 'found' and z == ('=', 0):
            lp = loop_of(k.a[0])
            ok = lp.it is not None and lp.it.op == 'it' and bool(lp.parts)
            for g, u, ev in lp.parts:
                ks = [(y, w) for y, w in g if isinstance(y, T) and y.op not in ('more', 'discr')]
                if not (len(ks) == 1 and ks[0][0].op == 'eq' and ks[0][1] == ('=', 0)):
                    ok = False if not ks else None
                    break
            r = 1 if ok else 0 if ok is False and r is None else r
    return r
