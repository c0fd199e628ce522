"""Summary domain for AmountPool: sums and differences of amounts are kept as
formal sums (`padd`), the amount of one currency as `pmag`.  That the operations
of the source really are these sums is what rule C10 decides; every other rule
may then use the formal sums."""
import re

from .terms import *
from . import engine as E

POOL = 'amount::AmountPool'
AMT = 'amount::Amount'
OP = re.compile(r'<(?:silverfox::)?amount::AmountPool as std::ops::(AddAssign|SubAssign|Add|Sub)(?:<&?(?:silverfox::)?amount::(Amount|AmountPool)>)?>::\w+$')
FROM = re.compile(r'<(?:silverfox::)?amount::AmountPool as std::convert::From<&?(?:silverfox::)?amount::Amount>>::from$')


def empty(eng):
    return raw('agg', 'silverfox::' + POOL, 0, raw('vec'))


def fields_of(eng, t):
    """(mag, symbol) of an amount term."""
    fs = eng.p.adts['silverfox::' + AMT]['variants'][0]['fields']
    i, j = fs.index('mag'), fs.index('symbol')
    if t.op == 'agg':
        return t.a[2 + i], t.a[2 + j]
    return raw('fld', t, 'mag'), raw('fld', t, 'symbol')


def amount(eng, mag, sym):
    fs = eng.p.adts['silverfox::' + AMT]['variants'][0]['fields']
    v = {'mag': mag, 'symbol': sym}
    return raw('agg', 'silverfox::' + AMT, 0, *[v[f] for f in fs])


def shrink(eng, t):
    """Amount(x.mag, x.symbol) is x."""
    if t.op == 'agg':
        m, y = fields_of(eng, t)
        if m.op == 'fld' and y.op == 'fld' and m.a[0] is y.a[0] and m.a[1] == 'mag' and y.a[1] == 'symbol':
            return m.a[0]
    return t


def negated(eng, t):
    m, y = fields_of(eng, t)
    return amount(eng, neg(m), y)


def padd(p, a):
    return raw('padd', p, a)


class Models(dict):
    def get(self, name, d=None):
        m = OP.match(name)
        if m:
            return lambda eng, s, args, ctx, inst: op(m, eng, s, args)
        if FROM.match(name):
            return lambda eng, s, args, ctx, inst: [(s, padd(empty(eng), shrink(eng, eng.deepval(s, args[0]))))]
        n = name.replace('silverfox::', '')
        if n == POOL + '::only':
            return only
        if n == POOL + '::is_zero':
            return is_zero
        return d

    def __bool__(self):
        return True


def only(eng, s, args, ctx, inst):
    p, y = eng.val(s, args[0]), eng.deepval(s, args[1])
    return [(s, amount(eng, raw('pmag', p, y), y))]


def is_zero(eng, s, args, ctx, inst):
    x = raw('pzero', eng.val(s, args[0]))
    E.DOM.setdefault(x, frozenset((0, 1)))
    return [(s, x)]


def op(m, eng, s, args):
    kind, rhs = m.group(1), m.group(2) or 'AmountPool'
    p, a = eng.val(s, args[0]), eng.deepval(s, args[1])
    if rhs == 'AmountPool':
        r = raw('pmerge' if kind.startswith('Add') else 'punmerge', p, a)
    else:
        a = shrink(eng, a)
        r = padd(p, a if kind.startswith('Add') else negated(eng, a))
    if kind.endswith('Assign'):
        st = s.copy()
        if args[0].op == 'ref':
            eng.store(st, args[0].a[0], args[0].a[1], r)
        else:
            st.mem[('heap', args[0])] = r
        return [(st, UNIT)]
    return [(s, r)]


def models():
    return Models()


def flat(p):
    """(base, [amounts]) of a formal sum."""
    out = []
    while p.op == 'padd':
        out.append(p.a[1])
        p = p.a[0]
    return p, list(reversed(out))


def parts(p):
    """A pool as a sum: (base, [('once', amount) | ('loop', Acc, [(facts, [amounts])])]) or None."""
    from .acc import acc
    out = []
    while True:
        if p.op == 'padd':
            out.append(('once', p.a[1]))
            p = p.a[0]
        elif p.op == 'loopval':
            a = acc(p)
            if a is None:
                return None
            rows = []
            for f, u in a.rows:
                b, xs = flat(u)
                if b is not a.phi:
                    return None
                rows.append((f, xs))
            out.append(('loop', a, rows))
            p = a.init
        else:
            return p, list(reversed(out))


def apply_model(eng, s, args, ctx, inst):
    """A change of an envelope by an amount on a date (its bookkeeping is rule C16)."""
    vs = eng.vals(s, args)
    s = s.copy()
    s.ev = s.ev + (('applied', shrink(eng, vs[1]), vs[2], ctx.line),)
    return [(s, UNIT)]


class EnvModels(Models):
    def get(self, name, d=None):
        if name.replace('silverfox::', '') == 'envelope::Envelope::apply_amount':
            return apply_model
        return Models.get(self, name, d)


def env_models():
    return EnvModels()
