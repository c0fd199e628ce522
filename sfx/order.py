"""Order domain: linear constraints between the leaves of min/max/abs terms
(variable elimination over the rationals), used to decide whether two such terms
are the same in a partition."""
from fractions import Fraction

from .terms import *
from . import engine as E

# a constraint is (linear term, strict): term < 0 or term <= 0


def from_facts(facts):
    out = []
    for k, v in (facts.items() if isinstance(facts, dict) else facts):
        if isinstance(k, tuple):
            if k and k[0] == 'iv':
                lo, hi = v
                if lo is not None:
                    out.append((sub(Num(lo), k[1]), False))
                if hi is not None:
                    out.append((sub(k[1], Num(hi)), False))
            continue
        if k.op == 'lt' and v[0] == '=':
            a, b = k.a
            out.append((sub(a, b), True) if v[1] else (sub(b, a), False))
        elif k.op == 'eq' and v[0] == '=' and v[1] == 1:
            a, b = k.a
            if a.op != 'agg' and b.op != 'agg':
                out += [(sub(a, b), False), (sub(b, a), False)]
        elif v[0] == '=' and isinstance(v[1], (int, Fraction)) and k.op not in ('eq', 'lt', 'not', 'has', 'found', 'more', 'discr'):
            d = sub(k, Num(v[1]))
            out += [(d, False), (neg(d), False)]
    return out


def lt(a, b):
    return (sub(a, b), True)


def le(a, b):
    return (sub(a, b), False)


def hard(t):
    return t.op in ('min', 'max', 'abs')


def feasible(cons, limit=400):
    """Some rational assignment of the leaves satisfies all constraints (True when too large to tell)."""
    rows = []
    for t, strict in cons:
        c, d = lin_parts(t)
        if any(hard(k) for k in d):
            continue
        rows.append((c, dict(d), strict))
    while True:
        rest = []
        for c, d, strict in rows:
            if not d:
                if c > 0 or c == 0 and strict:
                    return False
            else:
                rest.append((c, d, strict))
        rows = rest
        if not rows:
            return True
        vs = {}
        for _, d, _ in rows:
            for k, v in d.items():
                p = vs.setdefault(k, [0, 0])
                p[v > 0] += 1
        x = min(vs, key=lambda k: (vs[k][0] * vs[k][1], k.id))
        pos = [r for r in rows if r[1].get(x, 0) > 0]
        ng = [r for r in rows if r[1].get(x, 0) < 0]
        rows = [r for r in rows if x not in r[1]]
        seen = set()
        for cp, dp, sp in pos:
            for cn, dn, sn in ng:
                a, b = -dn[x], dp[x]
                d = {}
                for k in set(dp) | set(dn):
                    w = dp.get(k, 0) * a + dn.get(k, 0) * b
                    if w != 0 and k is not x:
                        d[k] = w
                r = (cp * a + cn * b, d, sp or sn)
                key = (r[0], tuple(sorted((k.id, w) for k, w in d.items())), r[2])
                if key not in seen:
                    seen.add(key)
                    rows.append(r)
        if len(rows) > limit:
            return True


def cases(t, cons):
    """[(constraints, t with min/max/abs resolved)]"""
    inner = None
    for x in walk(t):
        if hard(x) and not any(hard(y) for a in x.a if isinstance(a, T) for y in walk(a)):
            inner = x
            break
    if inner is None:
        return [(cons, t)]
    res = []
    if inner.op == 'abs':
        a = inner.a[0]
        opts = [([le(Num(0), a)], a), ([lt(a, Num(0))], neg(a))]
    else:
        opts = []
        xs = list(inner.a)
        for i, x in enumerate(xs):
            cs = []
            for j, y in enumerate(xs):
                if j == i:
                    continue
                lo, hi = (x, y) if inner.op == 'min' else (y, x)
                cs.append(lt(lo, hi) if j < i else le(lo, hi))
            opts.append((cs, x))
    for cs, v in opts:
        c2 = cons + cs
        if feasible(c2):
            t2 = subst(t, lambda y, inner=inner, v=v: v if y is inner else None, {})
            # the same term may stand in constraints; they are linear over leaves already
            res += cases(t2, c2)
    if len(res) > 2000:
        raise ValueError('too many cases')
    return res


def expand(cons):
    """Resolve min/max/abs inside the constraints themselves."""
    sets = [[c for c in cons if not any(hard(y) for y in walk(c[0]))]]
    for t, strict in cons:
        if any(hard(y) for y in walk(t)):
            sets = [c2 + [(x, strict)] for c in sets for c2, x in cases(t, c)]
            sets = [c for c in sets if feasible(c)]
            if len(sets) > 200:
                raise ValueError('too many cases')
    return sets


def equal(facts, got, exp, extra=()):
    """(True, None) always equal, (False, constraints) differ in a case that can be,
    (None, why) not decided.  `extra`: constraints known otherwise."""
    if got is exp:
        return True, None
    base = from_facts(facts) + list(extra)
    d = sub(got, exp)
    for b in expand(base):
        for cons, x in cases(d, b):
            if num(x) == 0:
                continue
            if feasible(cons + [lt(x, Num(0))]) or feasible(cons + [lt(Num(0), x)]):
                return False, (cons, x)
    return True, None


def holds(facts, a, b, extra=()):
    """a <= b in every case."""
    base = from_facts(facts) + list(extra)
    for b_ in expand(base):
        for cons, x in cases(sub(a, b), b_):
            if feasible(cons + [lt(Num(0), x)]):
                return False, (cons, x)
    return True, None
