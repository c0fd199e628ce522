"""Hash-consed value-flow terms, with the algebraic normal forms the abstract
domain relies on (linear arithmetic, AC min/max, string concatenation)."""
from fractions import Fraction

_tab = {}
_n = [0]


class T:
    __slots__ = ('op', 'a', 'id')

    def __repr__(self):
        return pp(self)

    def __lt__(self, o):
        return self.id < o.id


def raw(op, *a):
    k = (op,) + a
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        _n[0] += 1
        t.id = _n[0]
        _tab[k] = t
    return t


def is_t(x):
    return isinstance(x, T)


def Int(n):
    return raw('int', n)


def Flt(x):
    return raw('num', Fraction(x))


TRUE, FALSE = Int(1), Int(0)
UNIT = raw('agg', 'tuple', 0)


def Str(s):
    return raw('str', s)


def Sym(n):
    return raw('sym', n)


FIELDS = {}     # local struct -> field names, filled by the loader


def Agg(name, variant, *fields):
    fs = FIELDS.get(name)
    if fs and len(fs) == len(fields) and fields[0].op == 'fld':
        b = fields[0].a[0]      # S { a: t.a, b: t.b, .. } is t
        if all(f.op == 'fld' and f.a[0] is b and f.a[1] == n for f, n in zip(fields, fs)):
            return b
    return raw('agg', name, variant, *fields)


OPT = 'std::option::Option'
RES = 'std::result::Result'
ORD = 'std::cmp::Ordering'
NONE = Agg(OPT, 0)


def Some(x):
    return Agg(OPT, 1, x)


def Ok(x):
    return Agg(RES, 0, x)


def Err(x):
    return Agg(RES, 1, x)


def B(b):
    return TRUE if b else FALSE


# ---------------------------------------------------------------- arithmetic
def num(t):
    if isinstance(t, int):
        return Fraction(t)
    if t.op == 'int':
        return Fraction(t.a[0])
    if t.op == 'num':
        return t.a[0]
    return None


def lin_parts(t):
    n = num(t)
    if n is not None:
        return n, {}
    if t.op == 'lin':
        return t.a[0], dict(t.a[1])
    return Fraction(0), {t: Fraction(1)}


def mk_lin(c, d):
    d = {k: v for k, v in d.items() if v != 0}
    if not d:
        if c.denominator == 1:
            return raw('int', int(c))
        return raw('num', c)
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if v == 1:
            return k
    return raw('lin', c, tuple(sorted(d.items(), key=lambda kv: kv[0].id)))


def Num(x):
    return mk_lin(Fraction(x), {})


def add(a, b, kb=1):
    ca, da = lin_parts(a)
    cb, db = lin_parts(b)
    d = dict(da)
    for k, v in db.items():
        d[k] = d.get(k, 0) + kb * v
    return mk_lin(ca + kb * cb, d)


def sub(a, b):
    return add(a, b, -1)


def neg(a):
    return add(Num(0), a, -1)


def mul(a, b):
    for x, y in ((a, b), (b, a)):
        n = num(x)
        if n is not None:
            c, d = lin_parts(y)
            return mk_lin(c * n, {k: v * n for k, v in d.items()})
    # pull the sign out so that -x*y and x*-y agree
    s = 1
    out = []
    for x in (a, b):
        c, d = lin_parts(x)
        if d and c == 0 and min(d.items(), key=lambda kv: kv[0].id)[1] < 0:
            s = -s
            x = neg(x)
        out.append(x)
    out.sort(key=lambda t: t.id)
    r = raw('mul', *out)
    return neg(r) if s < 0 else r


def div(a, b):
    n = num(b)
    if n is not None and n != 0:
        return mul(a, Num(1 / n))
    c, d = lin_parts(a)
    if len(d) == 1 and c == 0:
        (k, v), = d.items()
        if v != 1:
            return mul(Num(v), raw('div', k, b))
    return raw('div', a, b)


def absv(a):
    n = num(a)
    if n is not None:
        return Num(abs(n))
    if a.op == 'abs':
        return a
    c, d = lin_parts(a)
    k = min(d, key=lambda t: t.id)
    if d[k] < 0:
        a = neg(a)
    return raw('abs', a)


def ac(op, *xs):
    out = set()
    k = None
    pick = min if op == 'min' else max
    for x in xs:
        ys = x.a if x.op == op else (x,)
        for y in ys:
            n = num(y)
            if n is not None:
                k = n if k is None else pick(k, n)
            else:
                out.add(y)
    out = sorted(out, key=lambda t: t.id)
    if k is not None:
        out.append(Num(k))
    if len(out) == 1:
        return out[0]
    return raw(op, *out)


# ---------------------------------------------------------------- booleans
def Not(t):
    if t.op == 'int':
        return B(t.a[0] == 0)
    if t.op == 'not':
        return t.a[0]
    return raw('not', t)


def Lt(a, b):
    na, nb = num(a), num(b)
    if na is not None and nb is not None:
        return B(na < nb)
    if a is b:
        return FALSE
    # normalise by moving constants: compare a-b with 0 when either is linear
    if a.op == 'lin' or b.op == 'lin':
        c, d = lin_parts(sub(a, b))
        if not d:
            return B(c < 0)
        # sum k_i t_i + c < 0 ; put the positive part left, negative part right
        k = min(d, key=lambda t: t.id)
        s = abs(d[k])
        c, d = c / s, {x: v / s for x, v in d.items()}
        l = mk_lin(Fraction(0), {x: v for x, v in d.items() if v > 0})
        r = mk_lin(Fraction(0), {x: -v for x, v in d.items() if v < 0})
        if c > 0:
            l = add(l, Num(c)) if num(r) is None else l
            r = r if num(r) is None else Num(-c)
        elif c < 0:
            r = add(r, Num(-c))
        return raw('lt', l, r)
    return raw('lt', a, b)


def Le(a, b):
    return Not(Lt(b, a))


ENUM_DISCR = {}   # (adt, variant) -> discriminant value, filled by the loader


def discr(t):
    if t.op == 'agg':
        return Int(ENUM_DISCR.get((t.a[0], t.a[1]), t.a[1]))
    return raw('discr', t)


def Eq(a, b):
    if a is b:
        return TRUE
    na, nb = num(a), num(b)
    if na is not None and nb is not None:
        return B(na == nb)
    if a.op == 'str' and b.op == 'str':
        return B(a.a[0] == b.a[0])
    if a.op == 'agg' and b.op == 'agg':
        if a.a[0] == b.a[0] and len(a.a) == len(b.a):
            if a.a[1] != b.a[1]:
                return FALSE
            es = [Eq(x, y) for x, y in zip(a.a[2:], b.a[2:])]
            if any(e is FALSE for e in es):
                return FALSE
            es = [e for e in es if e is not TRUE]
            if not es:
                return TRUE
            if len(es) == 1:
                return es[0]
        elif a.a[0] == b.a[0] and a.a[1] != b.a[1]:
            return FALSE
    for x, y in ((a, b), (b, a)):
        if x.op == 'agg' and len(x.a) == 2 and x.a[0] != 'tuple' and y.op != 'agg':
            return Eq(discr(y), discr(x))
    if a.op == 'lin' or b.op == 'lin':
        c, d = lin_parts(sub(a, b))
        if not d:
            return B(c == 0)
        k = min(d, key=lambda t: t.id)
        s = d[k]
        c, d = c / s, {x: v / s for x, v in d.items()}
        l = mk_lin(Fraction(0), {x: v for x, v in d.items() if v > 0})
        r = mk_lin(-c, {x: -v for x, v in d.items() if v < 0})
        a, b = l, r
    # constants on the right
    if a.op in ('int', 'num', 'str') or (b.op not in ('int', 'num', 'str') and b.id < a.id):
        a, b = b, a
    return raw('eq', a, b)


# ---------------------------------------------------------------- strings
def cat(*xs):
    out = []
    for x in xs:
        for y in (x.a if x.op == 'cat' else (x,)):
            if y.op == 'str' and y.a[0] == '':
                continue
            if y.op == 'str' and out and out[-1].op == 'str':
                out[-1] = Str(out[-1].a[0] + y.a[0])
            else:
                out.append(y)
    if not out:
        return Str('')
    if len(out) == 1:
        return out[0]
    return raw('cat', *out)


REBUILD = {'agg': Agg}


def rebuild(op, a):
    """Re-normalise after substitution."""
    if op == 'lin':
        r = Num(a[0])
        for k, v in a[1]:
            r = add(r, mul(Num(v), k))
        return r
    if op == 'mul':
        return mul(*a)
    if op == 'div':
        return div(*a)
    if op == 'abs':
        return absv(*a)
    if op in ('min', 'max'):
        return ac(op, *a)
    if op == 'lt':
        return Lt(*a)
    if op == 'eq':
        return Eq(*a)
    if op == 'not':
        return Not(*a)
    if op == 'cat':
        return cat(*a)
    if op == 'discr':
        return discr(*a)
    if op in REBUILD:
        return REBUILD[op](*a)
    return raw(op, *a)


def subst(t, f, memo):
    """Bottom-up rewriting: f(term) -> replacement or None."""
    r = memo.get(t)
    if r is not None:
        return r
    r = f(t)
    if r is None:
        ch = False
        na = []
        for x in t.a:
            if isinstance(x, T):
                y = subst(x, f, memo)
            elif isinstance(x, tuple):
                y = subst_tuple(x, f, memo)
            else:
                y = x
            if y is not x and y != x:
                ch = True
            na.append(y)
        r = rebuild(t.op, tuple(na)) if ch else t
    memo[t] = r
    return r


def subst_tuple(x, f, memo):
    return tuple(subst(y, f, memo) if isinstance(y, T)
                 else subst_tuple(y, f, memo) if isinstance(y, tuple) else y for y in x)


def walk(t, seen=None):
    """All subterms."""
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(x.a)


def contains(t, pred):
    return any(pred(x) for x in walk(t))


# ---------------------------------------------------------------- printing
def short(n):
    n = str(n)
    if n.startswith('closure:'):
        return n
    return n.split('::')[-1] if '<' not in n else n


def pp(t, depth=7):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return '(' + ','.join(pp(x, depth) for x in t) + ')'
        return str(t)
    if depth == 0:
        return '…'
    o, a = t.op, t.a
    d = depth - 1
    if o == 'int':
        return str(a[0])
    if o == 'num':
        return str(float(a[0]))
    if o == 'str':
        return repr(a[0])
    if o == 'sym':
        return str(a[0])
    if o == 'agg':
        from_v = VARIANT_NAMES.get((a[0], a[1]))
        nm = from_v or short(a[0])
        return nm + ('(' + ', '.join(pp(x, d) for x in a[2:]) + ')' if len(a) > 2 else '')
    if o == 'fld':
        return pp(a[0], depth) + '.' + str(a[1])
    if o == 'lin':
        s = ''
        for k, v in a[1]:
            s += (' + ' if v > 0 else ' - ') + ('' if abs(v) == 1 else str(abs(v)) + '*') + pp(k, d)
        if a[0]:
            s += ' %+g' % float(a[0])
        return '(' + s.strip(' +') + ')'
    if o == 'lt':
        return pp(a[0], d) + ' < ' + pp(a[1], d)
    if o == 'eq':
        return pp(a[0], d) + ' == ' + pp(a[1], d)
    if o == 'not':
        return '!(' + pp(a[0], d) + ')'
    if o == 'app':
        return short(a[0]) + '(' + ', '.join(pp(x, d) for x in a[1:]) + ')'
    return o + '(' + ', '.join(pp(x, d) for x in a) + ')'


VARIANT_NAMES = {}
