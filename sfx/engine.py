"""Trace-partitioned value-flow abstract interpretation over rustc MIR.

The program is never executed: every analysed function is interpreted over an
abstract domain of value-flow terms.  Control flow is partitioned by the
branch conditions (facts); loops are solved by a fixpoint over the locations
they change (anti-unification to `phi` terms) and summarised; calls are
summarised by inlining callee bodies or by models of library functions.
"""
import json
import re
import sys
from .terms import *
from . import terms as TM

sys.setrecursionlimit(200000)


class Budget(Exception):
    pass


class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = d['types']
        self.adts = d['adts']
        self.insts = {i['id']: i for i in d['insts']}
        self.by_name = {}
        for i in d['insts']:
            self.by_name.setdefault(i['name'], i)
        self.local = [i for i in d['insts'] if i['local'] and i['body']]
        for n, a in self.adts.items():
            for k, v in enumerate(a['variants']):
                ENUM_DISCR[(n, k)] = int(v['discr'])
                if a['local'] and a['kind'] == 'struct' and v['fields']:
                    TM.FIELDS[n] = tuple(v['fields'])
                if a['kind'] == 'enum':
                    VARIANT_NAMES[(n, k)] = v['name']
        for n, names in ((ORD, ('Less', 'Equal', 'Greater')),):
            for k, v in enumerate(names):
                ENUM_DISCR[(n, k)] = k - 1
                VARIANT_NAMES[(n, k)] = v
        for i, i_ in ((OPT, ('None', 'Some')), (RES, ('Ok', 'Err')),
                      ('std::ops::ControlFlow', ('Continue', 'Break'))):
            for k, v in enumerate(i_):
                ENUM_DISCR[(i, k)] = k
                VARIANT_NAMES[(i, k)] = v
        self._cfg = {}

    def find(self, suffix):
        """Local functions whose path ends with `suffix` (after the crate name)."""
        out = [i for i in self.local if i['name'] == 'silverfox::' + suffix or i['name'] == suffix]
        if not out:
            out = [i for i in self.local if i['name'].endswith('::' + suffix)]
        return out

    def get(self, suffix):
        f = self.find(suffix)
        return f[0] if len(f) == 1 else None

    def ty(self, n):
        return self.types[n]

    def cfg(self, inst):
        c = self._cfg.get(inst['id'])
        if c is None:
            c = self._cfg[inst['id']] = Cfg(inst['body'])
        return c


def succs(t):
    k = t[0]
    if k == 'goto':
        return [t[1]]
    if k == 'switch':
        return [x[1] for x in t[2]] + [t[3]]
    if k == 'drop':
        return [t[2]]
    if k == 'call':
        return [t[4]] if t[4] is not None else []
    if k == 'assert':
        return [t[5]]
    return []


class Cfg:
    def __init__(self, body):
        bl = body['blocks']
        n = len(bl)
        self.succ = [[s for s in succs(b['t'])] for b in bl]
        # trivial forwarding blocks (no statements, goto or drop)
        self.fwd = list(range(n))
        for i in range(n):
            j, seen = i, set()
            while j not in seen and not bl[j]['s'] and bl[j]['t'][0] in ('goto', 'drop'):
                seen.add(j)
                j = bl[j]['t'][1] if bl[j]['t'][0] == 'goto' else bl[j]['t'][2]
            self.fwd[i] = j
        # reverse postorder from entry
        seen, order = set(), []
        st = [(0, iter(self.succ[0]))]
        seen.add(0)
        back = []
        onst = {0}
        while st:
            u, it = st[-1]
            for v in it:
                if v in onst:
                    back.append((u, v))
                if v not in seen:
                    seen.add(v)
                    onst.add(v)
                    st.append((v, iter(self.succ[v])))
                    break
            else:
                st.pop()
                onst.discard(u)
                order.append(u)
        order.reverse()
        self.rpo = {b: k for k, b in enumerate(order)}
        pred = {b: [] for b in order}
        for u in order:
            for v in self.succ[u]:
                pred[v].append(u)
        self.pred = pred
        self.loops = {}
        for u, h in back:
            bodyset = self.loops.setdefault(h, {h})
            w = [u]
            while w:
                x = w.pop()
                if x in bodyset:
                    continue
                bodyset.add(x)
                w.extend(pred[x])
        # liveness (locals), address-taken by mutable reference count as live
        self.addr = set()
        use, defs = {}, {}
        for b in order:
            u, d = set(), set()

            def rd(o):
                if o[0] in ('c', 'm'):
                    rp(o[1])

            def rp(p):
                if p[0] not in d:
                    u.add(p[0])
                for e in p[1]:
                    if isinstance(e, list) and e[0] == 'i' and e[1] not in d:
                        u.add(e[1])

            def wr(p):
                if p[1]:
                    rp(p)
                elif p[0] not in u:
                    d.add(p[0])
                else:
                    d.add(p[0])
            for s in bl[b]['s']:
                if s[0] == '=':
                    rv = s[2]
                    k = rv[0]
                    if k == 'ref':
                        rp(rv[2])
                        if rv[1] and (not rv[2][1] or rv[2][1][0] != '*'):
                            self.addr.add(rv[2][0])
                    elif k in ('use',):
                        rd(rv[1])
                    elif k == 'agg':
                        for o in rv[2]:
                            rd(o)
                    elif k in ('bin', 'cbin'):
                        rd(rv[2])
                        rd(rv[3])
                    elif k == 'un':
                        rd(rv[2])
                    elif k == 'cast':
                        rd(rv[2])
                    elif k in ('discr', 'len'):
                        rp(rv[1])
                    elif k == 'repeat':
                        rd(rv[1])
                    wr(s[1])
                elif s[0] == 'sd':
                    rp(s[1])
            t = bl[b]['t']
            if t[0] == 'switch':
                rd(t[1])
            elif t[0] == 'call':
                rd(t[1])
                for o in t[2]:
                    rd(o)
                wr(t[3])
            elif t[0] == 'assert':
                rd(t[1])
                for o in t[4]:
                    rd(o)
            elif t[0] == 'return':
                if 0 not in d:
                    u.add(0)
            use[b], defs[b] = u, d
        live = {b: set() for b in order}
        ch = True
        while ch:
            ch = False
            for b in reversed(order):
                out = set()
                for v in self.succ[b]:
                    out |= live[v]
                n_ = use[b] | (out - defs[b])
                if n_ != live[b]:
                    live[b] = n_
                    ch = True
        self.live = live


class State:
    __slots__ = ('mem', 'facts', 'ev')

    def __init__(self, mem=None, facts=None, ev=()):
        self.mem = mem or {}
        self.facts = facts or {}
        self.ev = ev

    def copy(self):
        return State(dict(self.mem), dict(self.facts), self.ev)


# facts: term -> ('=', v) | ('!', frozenset(v)) | ('in', frozenset of string constants);   v: int or str-term or Fraction
DOM = {}      # discriminant term -> frozenset of possible values


BOOLD = frozenset((0, 1))


def _cval(t):
    if t.op == 'int':
        return t.a[0]
    if t.op == 'num':
        return t.a[0]
    if t.op == 'str':
        return t
    return None


def lookup(s, t):
    """Known constant value of t, or None."""
    c = _cval(t)
    if c is not None:
        return c
    f = s.facts.get(t)
    if f and f[0] == '=':
        return f[1]
    return None


def bound(s, t):
    """Integer-like interval of t from the facts (lo, hi) inclusive, None=unbounded; integers only."""
    n = num(t)
    if n is not None:
        return n, n
    lo = hi = None
    if t.op == 'lin':
        lo = hi = t.a[0]
        for k, v in t.a[1]:
            l, h = bound(s, k)
            if v < 0:
                l, h = h, l
            lo = None if lo is None or l is None else lo + v * l
            hi = None if hi is None or h is None else hi + v * h
        return lo, hi
    f = s.facts.get(t)
    if f and f[0] == '=' and not isinstance(f[1], T):
        return f[1], f[1]
    b = s.facts.get(('iv', t))
    if b:
        lo, hi = b
    if t.op in NONNEG and (lo is None or lo < 0):
        lo = 0
    if t.op == 'loopval':
        l = counter_lo(t)
        if l is not None and (lo is None or lo < l):
            lo = l
    if t.op == 'len' and lo < 1:
        x = t.a[0].a[0] if t.a[0].op in ('chars', 'bytes') and isinstance(t.a[0].a[0], T) else t.a[0]
        if x.op == 'elem' and x.a[0].op == 'words':
            lo = 1      # a word is never empty
    if f and f[0] == '!':
        while lo is not None and lo in f[1]:
            lo += 1
        while hi is not None and hi in f[1]:
            hi -= 1
    return lo, hi


_counter = {}


def counter_lo(t):
    """Least value of a location to which every iteration adds a constant >= 0."""
    if t in _counter:
        return _counter[t]
    r = None
    lp = LOOPS.get(t.a[0].a[0])
    init = dict(lp.inits).get(t.a[1]) if lp else None
    if init is not None and num(init) is not None:
        phi = raw('phi', lp.depth, t.a[1])
        r = num(init)
        for f, u, ev in lp.parts:
            d = num(sub(dict(u).get(t.a[1], phi), phi))
            if d is None or d < 0 or d.denominator != 1:
                r = None
                break
    _counter[t] = r
    return r


NONNEG = {'len', 'idx', 'count', 'pos', 'hitpos'}
INTLIKE = {'len', 'idx', 'count', 'pos', 'i'}


def intlike(t):
    return t.op in NONNEG


def decide(s, t):
    """0/1/None for a boolean term."""
    if t.op == 'int':
        return 1 if t.a[0] else 0
    if t.op == 'not':
        d = decide(s, t.a[0])
        return None if d is None else 1 - d
    f = s.facts.get(t)
    if f and f[0] == '=':
        return f[1]
    if f and f[0] == '!':
        if 0 in f[1]:
            return 1
        if 1 in f[1]:
            return 0
    if t.op == 'has' and s.facts.get(raw('len', t.a[0])) == ('=', 0):
        return 0
    if t.op == 'eq':
        a, b = t.a
        ca, cb = lookup(s, a), lookup(s, b)
        if ca is not None and cb is not None:
            return 1 if ca == cb else 0
        for x, c in ((a, cb), (b, ca)):
            if c is not None:
                f = s.facts.get(x)
                if f and f[0] == '!' and c in f[1]:
                    return 0
                if f and f[0] == 'in' and c not in f[1]:
                    return 0
        if num(b) is not None:
            lo, hi = bound(s, a)
            if lo is not None and lo > num(b) or hi is not None and hi < num(b):
                return 0
            if lo is not None and lo == hi == num(b):
                return 1
        l1 = s.facts.get(raw('lt', a, b))
        l2 = s.facts.get(raw('lt', b, a))
        if l1 and l1[1] == 1 or l2 and l2[1] == 1:
            return 0
        if l1 and l2 and l1[1] == 0 and l2[1] == 0:
            return 1
    elif t.op == 'lt':
        a, b = t.a
        al, ah = bound(s, a)
        bl, bh = bound(s, b)
        if ah is not None and bl is not None and ah < bl:
            return 1
        if al is not None and bh is not None and al >= bh:
            return 0
        if hit_in(a, b):
            return 0
        r = s.facts.get(raw('lt', b, a))
        if r and r[1] == 1:
            return 0
        e = s.facts.get(Eq(a, b))
        if e and e[0] == '=' and e[1] == 1:
            return 0
        # equality with a constant recorded as a value fact
        ca, cb = lookup(s, a), lookup(s, b)
        if ca is not None and cb is not None and not isinstance(ca, T) and not isinstance(cb, T):
            return 1 if ca < cb else 0
        if r and r[1] == 0 and e and e[0] == '=' and e[1] == 0:
            return 1
    return None


def hit_in(a, b):
    """len(L) (+c) < position found in L + d is false for d <= c + 1"""
    ca, da = lin_parts(a)
    cb, db = lin_parts(b)
    if len(da) != 1 or len(db) != 1:
        return False
    (l, kl), (h, kh) = next(iter(da.items())), next(iter(db.items()))
    if kl != 1 or kh != 1 or l.op != 'len' or h.op not in ('hitpos', 'idx') or cb > ca + 1:
        return False
    if h.op == 'hitpos':
        lp = LOOPS.get(h.a[0].a[0])
        it = lp.it if lp else None
        return it is not None and it.op == 'it' and it.a[1] == 0 and it.a[0] is l.a[0]
    return False


def assume(s, t, v):
    """Assume boolean term t has value v (0/1). Returns feasibility."""
    while t.op == 'not':
        t, v = t.a[0], 1 - v
    d = decide(s, t)
    if d is not None:
        return d == v
    if t.op == 'eq':
        a, b = t.a
        c = _cval(b)
        if c is not None:
            return assume_val(s, a, c, v)
        s.facts[t] = ('=', v)
        return True
    if t.op == 'lt':
        a, b = t.a
        for x, y, sgn in ((a, b, 1), (b, a, -1)):
            n = num(y)
            if n is None:
                continue
            # x in terms of constants: (x < n) or (n < x)
            base, off, k = x, 0, 1
            if x.op == 'lin' and len(x.a[1]) == 1:
                (base, k), off = x.a[1][0], x.a[0]
            if k == 1 and isint(base):
                n2 = n - off
                lo, hi = s.facts.get(('iv', base), (None, None))
                if sgn == 1:
                    if v:
                        hi = n2 - 1 if hi is None else min(hi, n2 - 1)
                    else:
                        lo = n2 if lo is None else max(lo, n2)
                else:
                    if v:
                        lo = n2 + 1 if lo is None else max(lo, n2 + 1)
                    else:
                        hi = n2 if hi is None else min(hi, n2)
                s.facts[('iv', base)] = (lo, hi)
                l, h = bound(s, base)
                if l is not None and h is not None and l > h:
                    return False
                if l is not None and l == h:
                    s.facts[base] = ('=', int(l) if l.denominator == 1 else l)
    s.facts[t] = ('=', v)
    return True


_isint = set()


def isint(t):
    return t.op in NONNEG or t in _isint or t.op == 'loopval' and counter_lo(t) is not None


def assume_val(s, t, c, v=1):
    """Assume t == c (v=1) or t != c (v=0) for a constant c."""
    if t.op in ('not',):
        return assume(s, t, 1 if (c == 1) == (v == 1) else 0)
    if t.op in ('eq', 'lt') and c in (0, 1):
        return assume(s, t, 1 if (c == 1) == (v == 1) else 0)
    k = _cval(t)
    if k is not None:
        return (k == c) == (v == 1)
    if t.op == 'lin' and len(t.a[1]) == 1 and not isinstance(c, T):
        (b, kk), off = t.a[1][0], t.a[0]
        x = (c - off) / kk
        return assume_val(s, b, int(x) if x.denominator == 1 else x, v)
    f = s.facts.get(t)
    dom = DOM.get(t)
    if t.op == 'len' and c == 0 and v == 1:
        pass
    if v:
        if f and f[0] == '=':
            return f[1] == c
        if f and f[0] == 'in' and c not in f[1]:
            return False
        if f and f[0] == '!' and c in f[1]:
            return False
        if dom is not None and c not in dom:
            return False
        if not isinstance(c, T):
            lo, hi = bound(s, t)
            if lo is not None and c < lo or hi is not None and c > hi:
                return False
        s.facts[t] = ('=', c)
        return True
    if f and f[0] == '=':
        return f[1] != c
    if f and f[0] == 'in':
        rest = f[1] - {c}
        if not rest:
            return False
        s.facts[t] = ('=', next(iter(rest))) if len(rest) == 1 else ('in', rest)
        return True
    ex = (f[1] if f else frozenset()) | {c}
    if dom is not None:
        rest = dom - ex
        if not rest:
            return False
        if len(rest) == 1:
            s.facts[t] = ('=', next(iter(rest)))
            return True
    s.facts[t] = ('!', ex)
    return True


def fkey(s, base=None):
    """Facts as a hashable set (optionally only those not in base)."""
    return frozenset((k, v) for k, v in s.facts.items() if base is None or base.get(k) != v)


class Loop:
    """Summary of a loop: the iterator driving it, the changed locations and
    one partition per way of coming round."""

    def __init__(self, it0, depth, inits, parts, where):
        self.it = it0          # initial iterator term or None
        self.depth = depth
        self.inits = inits     # tuple((key, init term))
        self.parts = parts     # tuple of (facts frozenset, updates tuple((key, term)), events tuple)
        self.where = where

    def subst(self, f, memo):
        return Loop(subst(self.it, f, memo) if self.it is not None else None, self.depth,
                    subst_tuple(self.inits, f, memo), tuple(
                        (sub_facts(p[0], f, memo), subst_tuple(p[1], f, memo), sub_ev(p[2], f, memo))
                        for p in self.parts), self.where)

    def key(self):
        return (self.it, self.depth, self.inits, self.parts)


def sub_facts(fs, f, memo):
    return frozenset((subst(k, f, memo) if isinstance(k, T) else subst_tuple(k, f, memo),
                      v) for k, v in fs)


def sub_ev(ev, f, memo):
    return subst_tuple(ev, f, memo)


LOOPS = {}
_loopkeys = {}


def loop_term(lp):
    k = lp.key()
    u = _loopkeys.get(k)
    if u is None:
        u = len(LOOPS) + 1
        LOOPS[u] = lp
        _loopkeys[k] = u
    return raw('loop', u)


def deep_subst(depth, f, memo):
    """Substitution that also rewrites inside nested loop summaries."""
    def g(x):
        r = f(x)
        if r is not None:
            return r
        if x.op == 'loop':
            lp = LOOPS[x.a[0]]
            if lp.depth == depth:      # its bound variables are its own
                return x
            l2 = lp.subst(g, memo)
            return loop_term(l2) if l2.key() != lp.key() else x
        return None
    return g


class Ctx:
    """Call context."""
    __slots__ = ('stack', 'loops', 'line')

    def __init__(self, stack=(), loops=0, line=None):
        self.stack = stack
        self.loops = loops
        self.line = line


SKIP = raw('SKIP')
UNDEF = raw('undef')


class Engine:
    def __init__(self, prog, opaque=None, max_states=6000, models=None):
        self.p = prog
        self.opaque = opaque or (lambda inst, ctx: False)
        self.max_states = max_states
        self.nstates = 0
        self.hashed = set()      # hash tables whose elements were walked
        self.panics = []     # (facts, kind, where, detail)
        self.diverge = []    # (state, name, args)
        self.visited = set()
        self.ncalls = 0
        self.opaque_called = {}
        self.xmodels = models or {}
        self.notes = set()
        self.strslices = []
        self.underflows = []
        from . import models as M
        self.M = M

    # ------------------------------------------------------------ types
    def adt_fields(self, name, variant):
        a = self.p.adts.get(name)
        if not a:
            return None
        vs = a['variants']
        if variant is None:
            variant = 0
        if variant >= len(vs):
            return None
        return vs[variant]['fields']

    # ------------------------------------------------------------ terms
    def proj_field(self, t, adt, variant, i):
        if t.op == 'agg':
            fs = t.a[2:]
            if i < len(fs):
                return fs[i]
            return raw('fld', t, str(i))
        if t.op == 'box':
            return t
        if t.op == 'withf':
            if t.a[1] == (adt, variant, i):
                return t.a[2]
            return self.proj_field(t.a[0], adt, variant, i)
        nm = str(i)
        if adt and adt in self.p.adts:
            fs = self.adt_fields(adt, variant)
            if fs and i < len(fs):
                nm = fs[i]
                if self.p.adts[adt]['kind'] == 'enum':
                    nm = self.p.adts[adt]['variants'][variant or 0]['name'] + '.' + nm
        if t.op == 'phiagg':
            pass
        return raw('fld', t, nm)

    def set_field(self, t, adt, variant, i, v):
        if t.op == 'agg':
            fs = list(t.a[2:])
            if i < len(fs):
                fs[i] = v
                return Agg(t.a[0], t.a[1], *fs)
        if t.op == 'box':
            return v
        fs = self.adt_fields(adt, variant) if adt else None
        if fs is not None and self.p.adts[adt]['kind'] == 'struct' and self.p.adts[adt]['local']:
            vals = [self.proj_field(t, adt, variant, k) for k in range(len(fs))]
            vals[i] = v
            return Agg(adt, 0, *vals)
        if adt and adt.startswith('tuple#'):
            n = int(adt[6:])
            vals = [self.proj_field(t, None, None, k) for k in range(n)]
            vals[i] = v
            return raw('agg', 'tuple', 0, *vals)
        return raw('withf', t, (adt, variant, i), v)

    def read_path(self, t, path):
        for e in path:
            if e[0] == 'f':
                t = self.proj_field(t, e[1], e[2], e[3])
            elif e[0] == 'e':
                t = elem_of(t, e[1])
            elif e[0] == 'm':
                t = self.M.map_at(t, e[1])
        return t

    def write_path(self, t, path, v):
        if not path:
            return v
        e = path[0]
        if e[0] == 'f':
            return self.set_field(t, e[1], e[2], e[3],
                                  self.write_path(self.proj_field(t, e[1], e[2], e[3]), path[1:], v))
        if e[0] == 'e':
            return with_elem(t, e[1], self.write_path(elem_of(t, e[1]), path[1:], v))
        if e[0] == 'm':
            return self.M.mput(t, e[1], self.write_path(self.M.map_at(t, e[1]), path[1:], v))
        raise AssertionError(e)

    # ------------------------------------------------------------ memory
    def load(self, s, cell, path):
        v = s.mem.get(cell)
        if v is None:
            if isinstance(cell, tuple) and cell[0] == 'heap':
                v = cell[1]
            else:
                v = UNDEF
        return self.read_path(v, path)

    def store(self, s, cell, path, v):
        if not path:
            s.mem[cell] = v
            return
        b = s.mem.get(cell)
        if b is None:
            b = cell[1] if cell[0] == 'heap' else UNDEF
        s.mem[cell] = self.write_path(b, path, v)

    def deref(self, s, t):
        """Value behind a reference-like term."""
        if t.op == 'ref':
            return self.load(s, t.a[0], t.a[1])
        if ('heap', t) in s.mem:
            return s.mem[('heap', t)]
        return t

    def val(self, s, t):
        """Argument value as seen by a model: references are looked through."""
        n = 0
        while t.op == 'ref' or ('heap', t) in s.mem:
            t2 = self.deref(s, t)
            if t2 is t:
                break
            t = t2
            n += 1
            if n > 20:
                break
        return t

    def vals(self, s, ts):
        return [self.deepval(s, t) for t in ts]

    def deepval(self, s, t):
        """Replace references inside aggregates by what they point to."""
        t = self.val(s, t)
        if t.op == 'agg' and any(isinstance(x, T) and contains(x, lambda y: y.op == 'ref') for x in t.a[2:]):
            return raw('agg', t.a[0], t.a[1], *[self.deepval(s, x) for x in t.a[2:]])
        return t

    # ------------------------------------------------------------ places
    def place(self, fr, s, pl):
        """-> ('l', cell, path, tyidx) or ('v', term, tyidx)"""
        p = self.p
        loc, proj = pl
        cur = ('l', (fr.key, loc), ())
        ty = fr.body['locals'][loc]
        variant = None
        for e in proj:
            if e == '*':
                v = self.load(s, cur[1], cur[2]) if cur[0] == 'l' else cur[1]
                if v.op == 'ref':
                    cur = ('l', v.a[0], v.a[1])
                elif ('heap', v) in s.mem:
                    cur = ('l', ('heap', v), ())
                else:
                    cur = ('v', v)
                t = p.ty(ty)
                ty = t.get('e') if t['k'] in ('ref', 'ptr') else ty
                if t['k'] == 'adt' and t['name'].endswith('Box'):
                    ty = t['args'][0] if t.get('args') else ty
                variant = None
            elif e[0] == 'f':
                t = p.ty(ty) if ty is not None else {'k': '?'}
                adt = t.get('name') if t['k'] == 'adt' else ('tuple#%d' % len(t['e']) if t['k'] == 'tuple' else None)
                if cur[0] == 'l':
                    cur = ('l', cur[1], cur[2] + (('f', adt, variant, e[1]),))
                else:
                    cur = ('v', self.proj_field(cur[1], adt, variant, e[1]))
                ty = e[2]
                variant = None
            elif e[0] == 'd':
                variant = e[1]
            elif e[0] in ('i', 'ci'):
                if e[0] == 'i':
                    k = self.load(s, (fr.key, e[1]), ())
                elif not e[3]:
                    k = Int(e[1])
                else:
                    k = raw('fromend', Int(e[1]))
                t = p.ty(ty)
                ty = t.get('e')
                if cur[0] == 'l':
                    cur = ('l', cur[1], cur[2] + (('e', k),))
                else:
                    cur = ('v', elem_of(cur[1], k))
            elif e[0] == 'ss':
                v = self.load(s, cur[1], cur[2]) if cur[0] == 'l' else cur[1]
                cur = ('v', raw('slice', v, Int(e[1]), raw('fromend', Int(e[2])) if e[3] else Int(e[2])))
            elif e[0] == 'o':
                ty = e[1]
        return cur + (ty,)

    def read(self, fr, s, pl):
        c = self.place(fr, s, pl)
        return self.load(s, c[1], c[2]) if c[0] == 'l' else c[1]

    def write(self, fr, s, pl, v):
        c = self.place(fr, s, pl)
        if c[0] == 'l':
            self.store(s, c[1], c[2], v)
        else:
            # write through an opaque mutable reference: re-resolve with a heap cell
            loc, proj = pl
            for n in range(len(proj), 0, -1):
                if proj[n - 1] == '*':
                    b = self.place(fr, s, [loc, proj[:n]])
                    if b[0] == 'v':
                        s.mem[('heap', b[1])] = b[1]
                    break
            c = self.place(fr, s, pl)
            if c[0] == 'l':
                self.store(s, c[1], c[2], v)
            else:
                self.notes.add('lost write')

    # ------------------------------------------------------------ operands
    def const(self, c):
        t = self.p.ty(c['t'])
        k = t['k']
        if k == 'fndef':
            return raw('fn', t.get('inst') if t.get('inst') is not None else -1, t['name'])
        v = c.get('v')
        if k == 'closure' and (v is None or 'zst' in v):
            return raw('agg', 'closure:%s' % t.get('inst'), 0)
        return self.cval(v, c['t'])

    def cval(self, v, ty):
        if v is None:
            return raw('app', 'const', str(self.p.ty(ty) if ty is not None else None))
        if 'int' in v:
            return Int(int(v['int']))
        if 'bool' in v:
            return B(v['bool'])
        if 'char' in v:
            c = v['char']
            return Int(c if isinstance(c, int) else ord(c))
        if 'float' in v:
            x = float(v['float'])
            if x != x or x in (float('inf'), float('-inf')):
                return raw('sym', 'f:%r' % x)
            return Num(Fraction(x))
        if 'str' in v:
            return Str(v['str'])
        if 'ref' in v:
            return self.cval(v['ref'], None)
        if 'arr' in v:
            return raw('vec', *[self.cval(x, None) for x in v['arr']])
        if 'bytes' in v:
            return raw('bytes', bytes(v['bytes']) if isinstance(v['bytes'], list) else v['bytes'])
        if 'tuple' in v:
            return raw('agg', 'tuple', 0, *[self.cval(x, None) for x in v['tuple']])
        if 'adt' in v:
            return raw('agg', v['adt'], v.get('variant', 0), *[self.cval(x, None) for x in v.get('fields', [])])
        if 'fnptr' in v:
            return raw('fn', v['fnptr'], '')
        if 'zst' in v:
            t = self.p.ty(ty) if ty is not None else {'k': 'tuple'}
            if t['k'] == 'adt':
                return raw('agg', t['name'], 0)
            if t['k'] == 'closure':
                return raw('agg', 'closure:%s' % t.get('inst'), 0)
            if t['k'] == 'fndef':
                return raw('fn', t.get('inst') if t.get('inst') is not None else -1, t['name'])
            return UNIT
        return raw('app', 'const', json.dumps(v, sort_keys=True)[:80])

    def operand(self, fr, s, o):
        if o[0] in ('c', 'm'):
            return self.read(fr, s, o[1])
        if o[0] == 'k':
            return self.const(o[1])
        return raw('app', 'runtime_check')

    # ------------------------------------------------------------ rvalues
    def rvalue(self, fr, s, rv):
        k = rv[0]
        if k == 'use':
            return self.operand(fr, s, rv[1])
        if k == 'ref':
            c = self.place(fr, s, rv[2])
            if rv[1]:
                if c[0] == 'l':
                    return raw('ref', c[1], c[2])
                return c[1]
            return self.load(s, c[1], c[2]) if c[0] == 'l' else c[1]
        if k == 'agg':
            kind = rv[1]
            ops = [self.operand(fr, s, o) for o in rv[2]]
            if kind == 'array':
                return raw('vec', *ops)
            if kind == 'tuple':
                return raw('agg', 'tuple', 0, *ops)
            if kind == 'adt':
                if rv[6] is not None if len(rv) > 6 else False:
                    return ops[0] if ops else UNIT
                return Agg(rv[3], rv[4], *ops)
            if kind == 'closure':
                t = self.p.ty(rv[3])
                return raw('agg', 'closure:%s' % t.get('inst'), 0, *ops)
            return ops[0] if ops else UNIT
        if k in ('bin', 'cbin'):
            a = self.operand(fr, s, rv[2])
            b = self.operand(fr, s, rv[3])
            if k == 'cbin':
                return raw('agg', 'tuple', 0, self.binop(rv[1], a, b, fr, rv), FALSE)
            return self.binop(rv[1], a, b, fr, rv)
        if k == 'un':
            a = self.operand(fr, s, rv[2])
            if rv[1] == 'Not':
                ty = self.opty(fr, rv[2])
                if ty is not None and self.p.ty(ty)['k'] == 'bool':
                    return Not(a)
                return raw('app', 'bitnot', a)
            if rv[1] == 'Neg':
                return neg(a)
            if rv[1] == 'PtrMetadata':
                return length(a)
            return raw('app', rv[1], a)
        if k == 'cast':
            a = self.operand(fr, s, rv[2])
            ck = rv[1]
            if 'FloatToInt' in ck:
                return raw('f2i', a)
            if ck.startswith('PointerCoercion') or 'Closure' in ck:
                return a
            return a
        if k == 'discr':
            c = self.place(fr, s, rv[1])
            v = self.load(s, c[1], c[2]) if c[0] == 'l' else c[1]
            return self.discr_of(s, v, c[-1])
        if k == 'len':
            return length(self.read(fr, s, rv[1]))
        if k == 'repeat':
            return raw('app', 'repeat', self.operand(fr, s, rv[1]))
        return raw('app', 'rv:' + k)

    def discr_of(self, s, v, ty):
        v = self.val(s, v)
        if v.op == 'mentry':
            from .models import has
            h = has(self.load(s, v.a[0].a[0], v.a[0].a[1]), v.a[1])
            return Not(h) if v.a[2] == 'hash' else h
        d = discr(v)
        if d.op == 'discr' and ty is not None:
            t = self.p.ty(ty)
            while t['k'] in ('ref', 'ptr'):
                t = self.p.ty(t['e'])
            if t['k'] == 'adt' and t['name'] in self.p.adts:
                DOM.setdefault(d, frozenset(int(x['discr']) for x in self.p.adts[t['name']]['variants']))
        return d

    def opty(self, fr, o):
        if o[0] in ('c', 'm'):
            loc, proj = o[1]
            if not proj:
                return fr.body['locals'][loc]
            for e in reversed(proj):
                if isinstance(e, list) and e[0] == 'f':
                    return e[2]
                break
            # derive through place typing
            ty = fr.body['locals'][loc]
            for e in proj:
                if e == '*':
                    t = self.p.ty(ty)
                    ty = t.get('e', ty)
                elif e[0] in ('f', 'o'):
                    ty = e[-1]
                elif e[0] in ('i', 'ci'):
                    ty = self.p.ty(ty).get('e', ty)
            return ty
        if o[0] == 'k':
            return o[1]['t']
        return None

    def binop(self, op, a, b, fr, rv):
        op = op.replace('WithOverflow', '').replace('Unchecked', '')
        ty = self.opty(fr, rv[2])
        isb = ty is not None and self.p.ty(ty)['k'] == 'bool'
        isi = ty is not None and self.p.ty(ty)['k'] in ('int', 'uint', 'char')
        if isi:
            for x in (a, b):
                for y in lin_parts(x)[1]:
                    _isint.add(y)
        if op == 'Add':
            return add(a, b)
        if op == 'Sub':
            return sub(a, b)
        if op == 'Mul':
            return mul(a, b)
        if op == 'Div':
            if isi and not (num(a) is not None and num(b) is not None):
                return raw('idiv', a, b)
            if isi:
                q = abs(num(a)) // abs(num(b)) if num(b) else 0
                return Num(q if (num(a) < 0) == (num(b) < 0) else -q)
            return div(a, b)
        if op == 'Rem':
            return raw('rem', a, b)
        if op == 'Eq':
            return Eq(a, b)
        if op == 'Ne':
            return Not(Eq(a, b))
        if op == 'Lt':
            return Lt(a, b)
        if op == 'Le':
            return Le(a, b)
        if op == 'Gt':
            return Lt(b, a)
        if op == 'Ge':
            return Le(b, a)
        if isb and op in ('BitAnd', 'BitOr', 'BitXor'):
            ia, ib = num(a), num(b)
            if op == 'BitAnd':
                if ia is not None:
                    return b if ia else FALSE
                if ib is not None:
                    return a if ib else FALSE
            if op == 'BitOr':
                if ia is not None:
                    return TRUE if ia else b
                if ib is not None:
                    return TRUE if ib else a
            if a is b and op != 'BitXor':
                return a
            return raw({'BitAnd': 'and', 'BitOr': 'or', 'BitXor': 'xor'}[op], *sorted((a, b)))
        if op == 'Cmp':
            return raw('cmp', a, b)
        return raw('app', 'bin:' + op, a, b)

    # ------------------------------------------------------------ branching
    def split_bool(self, s, t):
        """Partition state on a boolean term -> [(state, 0/1)]"""
        if t.op == 'not':
            return [(x, 1 - v) for x, v in self.split_bool(s, t.a[0])]
        if t.op in ('and', 'or', 'xor'):
            out = []
            for s1, v1 in self.split_bool(s, t.a[0]):
                if t.op == 'and' and not v1:
                    out.append((s1, 0))
                    continue
                if t.op == 'or' and v1:
                    out.append((s1, 1))
                    continue
                for s2, v2 in self.split_bool(s1, t.a[1]):
                    out.append((s2, v1 ^ v2 if t.op == 'xor' else v2))
            return out
        d = decide(s, t)
        if d is not None:
            return [(s, d)]
        out = []
        for v in (1, 0):
            x = s.copy()
            if assume(x, t, v):
                out.append((x, v))
        return out

    def split_switch(self, s, t, cases, other):
        t = self.val(s, t)
        if t.op in ('not', 'eq', 'lt', 'and', 'or', 'xor') or (t.op in ('has', 'pred', 'found')):
            out = []
            d = {int(v): b for v, b in cases}
            for x, v in self.split_bool(s, t):
                out.append((x, d.get(v, other)))
            return out
        c = _cval(t)
        if c is None:
            f = s.facts.get(t)
            if f and f[0] == '=':
                c = f[1]
        if c is not None and not isinstance(c, T):
            for v, b in cases:
                if swval(int(v)) == c or int(v) == c:
                    return [(s, b)]
            return [(s, other)]
        out = []
        rest = s.copy()
        ok = True
        for v, b in cases:
            x = s.copy()
            v = swval(int(v))
            if assume_val(x, t, v, 1):
                out.append((x, b))
            if ok:
                ok = assume_val(rest, t, v, 0)
        if ok and other is not None:
            out.append((rest, other))
        return out

    # ------------------------------------------------------------ frames
    def run(self, inst, args, s, ctx):
        """Analyse a function body: -> [(state, value)]"""
        body = inst['body']
        depth = len(ctx.stack)
        if depth > 60:
            raise Budget('call depth')
        fr = Frame()
        fr.inst = inst
        fr.body = body
        fr.cfg = self.p.cfg(inst)
        fr.key = depth
        fr.ctx = Ctx(ctx.stack + ((inst['id'], ctx.line),), ctx.loops)
        self.visited.add(inst['id'])
        s = s.copy()
        argc = body['argc']
        if body.get('spread') is not None and body.get('spread'):
            pass
        for i in range(argc):
            s.mem[(depth, i + 1)] = args[i] if i < len(args) else UNDEF
        rets = []
        self.flow(fr, {0: [s]}, None, None, rets, None)
        out = []
        for st, v in rets:
            for c in [c for c in st.mem if isinstance(c[0], int) and c[0] >= depth]:
                del st.mem[c]
            out.append((st, v))
        return self.merge(out)

    def merge(self, outs, key=None):
        """Join partitions that differ in one complementary fact only (lossless)."""
        if len(outs) < 2:
            return outs
        groups = {}
        for s, v in outs:
            k = (v, s.ev, frozenset(s.mem.items()))
            groups.setdefault(k, []).append(s)
        res = []
        for k, ss in groups.items():
            if len(ss) > 1:
                ss = self.merge_states(ss)
            res.extend((x, k[0]) for x in ss)
        return res

    def merge_states(self, ss):
        pool = {}
        for s in ss:
            pool.setdefault(frozenset(s.facts.items()), s)
        ch = True
        while ch and len(pool) > 1:
            ch = False
            keys = list(pool)
            if len(keys) > 400:
                break
            done = set()
            for i in range(len(keys)):
                if keys[i] in done:
                    continue
                for j in range(i + 1, len(keys)):
                    if keys[j] in done:
                        continue
                    a, b = keys[i], keys[j]
                    if a <= b or b <= a:      # subsumption
                        big = b if a <= b else a
                        done.add(big)
                        pool.pop(big, None)
                        ch = True
                        if big is a:
                            break
                        continue
                    da, db = a - b, b - a
                    m = compl(da, db)
                    if m is not None:
                        n = (a & b) | m
                        st = State(dict(pool[a].mem), dict(n), pool[a].ev)
                        done.add(a)
                        done.add(b)
                        pool.pop(a)
                        pool.pop(b)
                        pool[n] = st
                        ch = True
                        break
        return list(pool.values())

    def flow(self, fr, start, region, header, rets, backs):
        """Propagate states through (a region of) the control-flow graph.
        Returns exits {bb: [states]} leaving the region."""
        cfg = fr.cfg
        pend = {}
        exits = {}

        def push(bb, st, src=None):
            self.nstates += 1
            if self.nstates > self.max_states:
                raise Budget('partitions')
            if region is not None:
                if bb == header:
                    backs.append(st)
                    return
                if bb not in region:
                    exits.setdefault(bb, []).append(st)
                    return
            pend.setdefault(bb, []).append(st)
        first = True
        for bb, sts in start.items():
            pend.setdefault(bb, []).extend(sts)
        while pend:
            bb = min(pend, key=lambda b: cfg.rpo.get(b, 1 << 30))
            sts = pend.pop(bb)
            if bb in cfg.loops and not (region is not None and bb == header):
                for st in self.join(fr, bb, sts):
                    for eb, es in self.loop(fr, bb, st, rets).items():
                        for e in es:
                            push(eb, e)
                continue
            if len(sts) > 1:
                sts = self.join(fr, bb, sts)
            for st in sts:
                self.block(fr, bb, st, push, rets, backs)
        return exits

    def join(self, fr, bb, sts):
        if len(sts) < 2:
            return sts
        live = fr.cfg.live.get(bb)
        if live is not None:
            for st in sts:
                for c in [c for c in st.mem if c[0] == fr.key and isinstance(c[0], int)
                          and c[1] not in live and c[1] not in fr.cfg.addr]:
                    del st.mem[c]
        groups = {}
        for st in sts:
            groups.setdefault((st.ev, frozenset(st.mem.items())), []).append(st)
        out = []
        for g in groups.values():
            out.extend(self.merge_states(g) if len(g) > 1 else g)
        return out

    def block(self, fr, bb, s, push, rets, backs):
        b = fr.body['blocks'][bb]
        for st in b['s']:
            if st[0] == '=':
                fr.ctx.line = (fr.inst['file'], st[3])
                self.write(fr, s, st[1], self.rvalue(fr, s, st[2]))
            elif st[0] == 'sd':
                v = self.read(fr, s, st[1])
                self.write(fr, s, st[1], raw('setd', v, st[2]))
        t = b['t']
        k = t[0]
        line = (fr.inst['file'], b['l'])
        fr.ctx.line = line
        if k == 'goto':
            push(t[1], s)
        elif k == 'drop':
            push(t[2], s)
        elif k == 'return':
            rets.append((s, s.mem.get((fr.key, 0), UNIT)))
        elif k == 'switch':
            fwd = {fr.cfg.fwd[x] for x in succs(t)}
            if len(fwd) == 1:
                push(fwd.pop(), s)
                return
            v = self.operand(fr, s, t[1])
            ty = self.opty(fr, t[1])
            if ty is not None and self.p.ty(ty)['k'] == 'bool' and v.op != 'int':
                DOM.setdefault(self.val(s, v), BOOLD)
            for x, nb in self.split_switch(s, v, t[2], t[3]):
                if fr.body['blocks'][nb]['t'][0] == 'unreachable' and not fr.body['blocks'][nb]['s']:
                    continue
                push(nb, x)
        elif k == 'assert':
            c = self.operand(fr, s, t[1])
            kind = t[3]
            exp = 1 if t[2] else 0
            if kind not in ('other',) and not kind.startswith('overflow'):
                d = decide(s, c)
                if d != exp:
                    f = s.copy()
                    if assume(f, c, 1 - exp):
                        self.panics.append((f, kind, self.trace(fr.ctx), c))
                    if not assume(s, c, exp):
                        return
            elif kind == 'overflow:Sub' and self.p.ty(self.opty(fr, t[4][0]))['k'] == 'uint':
                a, b = (self.operand(fr, s, o) for o in t[4])
                f = s.copy()
                if assume(f, Lt(a, b), 1):
                    self.underflows.append((f, a, b, self.trace(fr.ctx)))
            push(t[5], s)
        elif k == 'call':
            self.call(fr, s, t, push, backs, rets)
        elif k in ('unreachable', 'resume', 'abort'):
            pass

    def trace(self, ctx):
        return tuple('%s' % self.p.insts[i]['name'] for i, _ in ctx.stack), ctx.line

    def call(self, fr, s, t, push, backs, rets):
        f = t[1]
        args = [self.operand(fr, s, a) for a in t[2]]
        tgt = t[4]
        self.ncalls += 1
        argtys = t[5] if len(t) > 5 else None
        if f[0] == 'k':
            fv = self.const(f[1])
        else:
            fv = self.operand(fr, s, f)
        dty = self.place_ty(fr, t[3])
        res = self.apply(fv, args, s, fr.ctx, dest_ty=dty, argtys=argtys)
        if res is None:      # diverges
            return
        for st, v in res:
            if v is SKIP:
                if backs is not None:
                    st.ev = st.ev
                    backs.append(st)
                    continue
                rets.append((st, SKIP))
                continue
            if tgt is None:
                continue
            self.write(fr, st, t[3], v)
            push(tgt, st)

    def place_ty(self, fr, pl):
        return self.opty(fr, ('c', pl))

    # ------------------------------------------------------------ calls
    _ctors = {}

    def apply(self, fv, args, s, ctx, dest_ty=None, argtys=None):
        """Call a function value -> list of (state, value), or None if it diverges."""
        if fv.op == 'ref':
            fv = self.val(s, fv)
        if fv.op == 'agg' and str(fv.a[0]).startswith('closure:'):
            inst = self.p.insts[int(fv.a[0].split(':')[1])]
            return self.invoke(inst, [fv] + args, s, ctx)
        if fv.op == 'fn':
            iid, name = fv.a
            inst = self.p.insts.get(iid)
            if inst is None and not name:
                return [(s, raw('app', 'fnptr', *self.vals(s, args)))]
            nm = name or inst['name']
            return self.call_named(nm, inst, args, s, ctx, dest_ty, argtys)
        return [(s, raw('app', 'call', fv, *self.vals(s, args)))]

    def ctor(self, nm):
        """(adt, variant, fields) of a constructor used as a function"""
        r = self._ctors.get(nm)
        if r is None:
            r = False
            b = re.sub(r'::<.*>(?=::\w+$)', '', nm)
            if '<' not in b and '::' in b:
                base, v = b.rsplit('::', 1)
                if base in ('std::option::Option', 'std::result::Result') and v in ('Some', 'Ok', 'Err'):
                    r = (base, {'Some': 1, 'Ok': 0, 'Err': 1}[v], 1)
                else:
                    for a in (base, base.replace('silverfox::', '', 1), b, b.replace('silverfox::', '', 1)):
                        d = self.p.adts.get(a)
                        if d is None:
                            continue
                        for i, x in enumerate(d['variants']):
                            if x['name'] == v and (d['kind'] != 'struct' or a in (b, b.replace('silverfox::', '', 1))):
                                r = (a, i, len(x['fields']))
            self._ctors[nm] = r
        return r or None

    def invoke(self, inst, args, s, ctx):
        return self.run(inst, args, s, ctx)

    def call_named(self, nm, inst, args, s, ctx, dest_ty, argtys):
        M = self.M
        # closures and fn items through the Fn traits
        if nm in ('std::ops::FnOnce::call_once', 'std::ops::FnMut::call_mut', 'std::ops::Fn::call'):
            tup = self.val(s, args[1])
            fa = list(tup.a[2:]) if tup.op == 'agg' else [tup]
            return self.apply(args[0], fa, s, ctx, dest_ty)
        local = inst is not None and inst['local']
        if inst is None or not inst['body']:
            c = self.ctor(inst['name'] if inst is not None else nm)
            if c is not None and len(args) == c[2]:
                return [(s, raw('agg', c[0], c[1], *[self.val(s, a) for a in args]))]
        if local:
            xm = self.xmodels.get(inst['name']) or self.xmodels.get(inst['name'].replace('silverfox::', '', 1))
            if xm:
                r = xm(self, s, args, ctx, inst)
                if r is not NotImplemented:
                    return r
            pub = self.opaque(inst, ctx)
            rec = any(i == inst['id'] for i, _ in ctx.stack)
            if M.LOCAL_ITER.search(inst['name']) and nm == 'std::iter::Iterator::next' and len(ctx.stack) > 0:
                return M.model(self, nm, inst, args, s, ctx, dest_ty, argtys)
            if not pub and not rec and inst['body']:
                if M.DERIVED_ID.search(inst['name']):
                    return [(s, self.val(s, args[0]))]
                return self.run(inst, args, s, ctx)
            return self.opaque_call(inst['name'], args, s, ctx, local=True)
        r = M.model(self, nm, inst, args, s, ctx, dest_ty, argtys)
        if r is not NotImplemented:
            return r
        if inst is not None and inst['body'] and M.DESCEND.search(nm) and \
                not any(i == inst['id'] for i, _ in ctx.stack):
            return self.run(inst, args, s, ctx)
        return self.opaque_call(nm, args, s, ctx, local=False)

    def opaque_call(self, name, args, s, ctx, local, ev=None):
        vs = self.vals(s, args)
        name = name.replace('silverfox::', '')
        s = s.copy()
        self.opaque_called[name] = self.opaque_called.get(name, 0) + 1
        if ev is None:
            ev = local or bool(self.M.EFFECT.search(name))
        stateful = ev and not local
        if ev:
            s.ev = s.ev + ((name,) + tuple(vs) + (ctx.line,),)
        for i, a in enumerate(args):
            if a.op == 'ref':
                self.store(s, a.a[0], a.a[1], raw('post', name, i, *vs))
        if name == 'std::env::current_dir':
            # its value depends on the changes made before
            n = sum(1 for e in s.ev if e[0] in ('std::env::set_current_dir', 'loop') or isinstance(e[0], str) and e[0].startswith('ledger::'))
            if n:
                vs = [Int(n)]
        if name == 'utils::remove_comments' and len(vs) == 1 and comment_free(vs[0], name):
            return [(s, vs[0])]
        return [(s, raw('app', name, *vs))]

    # ------------------------------------------------------------ loops
    def loop(self, fr, header, s, rets):
        cfg = fr.cfg
        region = cfg.loops[header]
        live = cfg.live[header]
        depth = fr.ctx.loops
        s = s.copy()
        for c in [c for c in s.mem if c[0] == fr.key and isinstance(c[0], int)
                  and c[1] not in live and c[1] not in cfg.addr]:
            del s.mem[c]
        octx = fr.ctx
        fr.ctx = Ctx(octx.stack, depth + 1, octx.line)

        def body(h):
            backs, rts = [], []
            h = h.copy()
            h.ev = ()
            ex = self.flow(fr, {header: [h]}, region, header, rts, backs)
            assert not rts, 'return inside natural loop'
            return backs, ex
        try:
            res = self.solve_loop(s, body, depth, names=fr_names(fr), where=(fr.inst['file'], fr.body['blocks'][header]['l']))
        finally:
            fr.ctx = octx
        return res

    def solve_loop(self, s, body, depth, names=None, where=None):
        """Fixpoint over changed locations, then summary + exits."""
        lits = [c for c, v in s.mem.items() if is_iter(v) and literal_it(v)]
        if lits:
            r = self.unroll(s, body, lits)
            if r is not None:
                return r
        h = s.copy()
        for it in range(12):
            backs, exits = body(h)
            ch = False
            first = self._first = it == 0
            for b in backs:
                for c, v in list(h.mem.items()):
                    bv = b.mem.get(c)
                    if bv is None or bv is v:
                        continue
                    nv = self.generalise(v, bv, depth, (cname(c, names),), s.mem.get(c))
                    if nv is not v:
                        h.mem[c] = nv
                        ch = True
                for c, v in b.mem.items():
                    if c not in h.mem and isinstance(c, tuple) and c[0] == 'heap':
                        if not contains(c[1], lambda x: x.op == 'k' and x.a[0] == depth):
                            h.mem[c] = self.generalise(c[1], v, depth, (cname(c, names),), c[1])
                            ch = True
            if not ch:
                break
        else:
            raise Budget('loop fixpoint')
        # collect summary
        drives = set()
        for v in h.mem.values():
            for x in walk(v):
                if x.op == 'drive' and x.a[1] == depth:
                    drives.add(x)
        phis = {}
        for c, v in h.mem.items():
            for x in walk(v):
                if x.op == 'phi' and x.a[0] == depth:
                    phis[x.a[1]] = c
        # elementwise updates: locations whose back value is withe(v, key, ..)
        elemw = set()
        inits, parts = {}, []
        for b in backs:
            upd = {}
            for c, v in h.mem.items():
                bv = b.mem.get(c)
                if bv is None:
                    continue
                self.diff(v, bv, depth, (cname(c, names),), upd, s.mem.get(c))
            for k in upd:
                if k not in phis:
                    elemw.add(k)
            parts.append((fkey(b, h.facts), tuple(sorted(upd.items(), key=lambda kv: repr(kv[0]))), b.ev))
        for c, v in h.mem.items():
            self.collect_inits(v, s.mem.get(c, c[1] if isinstance(c, tuple) and c[0] == 'heap' else UNDEF), depth, inits)
        live_d = sorted(drives, key=lambda d: d.id)
        it0 = None
        if len(live_d) == 1:
            it0 = live_d[0].a[0]
            if any(isinstance(y, T) and y.op == 'more' and len(y.a) > 1 and y.a[0] == depth for b in backs for y in b.facts):
                it0 = raw('multi', it0)     # several elements per iteration
        elif live_d:
            it0 = raw('many', *[d.a[0] for d in live_d])
        parts = merge_parts(self, parts)
        lp = Loop(it0, depth, tuple(sorted(inits.items(), key=lambda kv: repr(kv[0]))), tuple(parts), where)
        lt = loop_term(lp)
        simp = {}
        for k in phis:
            simp[k] = simplify_fold(self, lp, lt, k)

        def f_exit(x):
            if x.op == 'phi' and x.a[0] == depth:
                return simp.get(x.a[1]) or raw('loopval', lt, x.a[1])
            if x.op == 'k' and x.a[0] == depth:
                return raw('hit', lt, *x.a[1:])
            if x.op == 'idx' and x.a[0] == depth:
                return raw('hitpos', lt, *x.a[1:])
            if x.op == 'more' and x.a[0] == depth:
                return raw('found', lt, *x.a[1:])
            if x.op == 'seg' and x.a[0] == depth:
                return raw('hitseg', lt)
            if x.op == 'drive' and x.a[1] == depth:
                return self.M.resume(raw('rest', x.a[0], lt))
            return None
        out = {}
        memo = {}
        g = deep_subst(depth, f_exit, memo)
        hasev = any(p[2] for p in parts)
        for eb, sts in exits.items():
            for st in sts:
                n = State()
                for c, v in st.mem.items():
                    n.mem[c if c[0] != 'heap' or not isinstance(c[1], T) else ('heap', subst(c[1], g, memo))] = subst(v, g, memo)
                for c in elemw:
                    for cell in list(n.mem):
                        if cname(cell, names) == c[0] and len(c) == 1:
                            if not any(x.op == 'loopval' and x.a[0] is lt for x in walk(n.mem[cell])):
                                n.mem[cell] = raw('loopval', lt, c)
                        elif cname(cell, names) == c[0]:
                            n.mem[cell] = set_agg_path(n.mem[cell], c[1:], raw('loopval', lt, c))
                for k, v in st.facts.items():
                    if isinstance(k, T):
                        k2 = subst(k, g, memo)
                        if k in DOM:
                            DOM.setdefault(k2, DOM[k])
                        if k2.op == 'int':
                            continue
                    else:
                        k2 = subst_tuple(k, g, memo)
                    n.facts[k2] = v
                ev = s.ev
                if hasev or st.ev:
                    ev = ev + (('loop', lt),) if hasev else ev
                n.ev = ev + subst_tuple(st.ev, g, memo)
                out.setdefault(eb, []).append(n)
        return out

    def unroll(self, s, body, lits):
        """A loop over the elements of a literal list: one pass of the body for each."""
        states, out = [s], {}
        for rnd in range(12):
            nxt = []
            for st in states:
                backs, exits = body(st)
                for b in backs:
                    if not any(c in b.mem and b.mem[c] is not st.mem.get(c) for c in lits):
                        return None
                    b.ev = st.ev + b.ev
                    nxt.append(b)
                for k, l in exits.items():
                    for e in l:
                        e.ev = st.ev + e.ev
                        out.setdefault(k, []).append(e)
            if not nxt:
                return out
            if len(nxt) > 64:
                return None
            states = nxt
        return None

    def generalise(self, v, bv, depth, path, init):
        if v is bv:
            return v
        if v.op == 'phi' and v.a[0] == depth:
            return v
        if is_iter(v) and is_iter(bv) or v.op == 'drive':
            if v.op == 'drive' and v.a[1] == depth:
                return v
            if iter_shape(v) == iter_shape(bv):
                return raw('drive', v, depth)
        if bv.op in ('withe', 'mput') and elemwise(bv, v, depth, self._first):
            return v
        if v.op == 'agg' and bv.op == 'agg' and v.a[:2] == bv.a[:2] and len(v.a) == len(bv.a):
            fs = [self.generalise(x, y, depth, path + (i,), None) for i, (x, y) in enumerate(zip(v.a[2:], bv.a[2:]))]
            return raw('agg', v.a[0], v.a[1], *fs)
        if bv.op == 'agg' and bv.a[0] in self.p.adts and self.p.adts[bv.a[0]]['kind'] == 'struct' and v.op not in ('agg', 'undef'):
            fs0 = [self.proj_field(v, bv.a[0], 0, i) for i in range(len(bv.a) - 2)]
            fs = [self.generalise(x, y, depth, path + (i,), None) for i, (x, y) in enumerate(zip(fs0, bv.a[2:]))]
            return raw('agg', bv.a[0], bv.a[1], *fs)
        return raw('phi', depth, path)

    def diff(self, v, bv, depth, path, upd, init):
        if v is bv:
            if v.op == 'phi' and v.a[0] == depth:
                upd[v.a[1]] = bv
            return
        if v.op == 'phi' and v.a[0] == depth:
            upd[v.a[1]] = bv
            return
        if v.op == 'drive':
            return
        if v.op == 'agg' and bv.op == 'agg' and v.a[:2] == bv.a[:2] and len(v.a) == len(bv.a):
            for i, (x, y) in enumerate(zip(v.a[2:], bv.a[2:])):
                self.diff(x, y, depth, path + (i,), upd, None)
            return
        upd[path] = bv

    def collect_inits(self, v, init, depth, inits):
        if v.op == 'phi' and v.a[0] == depth:
            inits[v.a[1]] = init
            return
        if v.op == 'agg':
            for i, x in enumerate(v.a[2:]):
                if isinstance(x, T) and x.op in ('phi', 'agg'):
                    if init.op == 'agg':
                        y = init.a[2 + i] if 2 + i < len(init.a) else UNDEF
                    else:
                        y = self.proj_field(init, v.a[0], v.a[1], i)
                    self.collect_inits(x, y, depth, inits)


class Frame:
    __slots__ = ('inst', 'body', 'cfg', 'key', 'ctx')


def set_agg_path(t, path, v):
    if not path:
        return v
    if t.op != 'agg' or 2 + path[0] >= len(t.a):
        return t
    fs = list(t.a[2:])
    fs[path[0]] = set_agg_path(fs[path[0]], path[1:], v)
    return Agg(t.a[0], t.a[1], *fs)


def swval(v):
    # switch values of signed discriminants arrive as unsigned 64/8-bit
    if v == 0xffffffffffffffff or v == 0xff or v == 0xffffffff:
        return -1
    return v


def compl(da, db):
    """Facts differing in one complementary literal -> replacement facts (frozenset) or None."""
    if not da or not db:
        return None
    ka = {k for k, _ in da}
    kb = {k for k, _ in db}
    # interval facts travel with their comparison atom: ignore them when the atom is complementary
    ta = {k: v for k, v in da}
    tb = {k: v for k, v in db}
    core_a = {k for k in ka if isinstance(k, T)}
    core_b = {k for k in kb if isinstance(k, T)}
    if ka != core_a or kb != core_b:
        # intervals involved
        if len(core_a) == 1 and core_a == core_b:
            k = next(iter(core_a))
            if k.op == 'lt' and {ta[k][1], tb[k][1]} == {0, 1}:
                return frozenset()
        return None
    if len(ka) != 1 or ka != kb:
        return None
    k = next(iter(ka))
    a, b = ta[k], tb[k]
    if k.op in ('eq', 'lt', 'has', 'pred', 'more', 'found') or DOM.get(k) == frozenset((0, 1)):
        if a[0] == '=' and b[0] == '=' and {a[1], b[1]} == {0, 1}:
            return frozenset()
    for x, y in ((a, b), (b, a)):
        if x[0] == '=' and y[0] == '!' and x[1] in y[1]:
            r = y[1] - {x[1]}
            return frozenset([(k, ('!', r))]) if r else frozenset()
    for x, y in ((a, b), (b, a)):
        if x[0] == 'in' and y[0] == '!' and x[1] <= y[1]:
            r = y[1] - x[1]
            return frozenset([(k, ('!', r))]) if r else frozenset()
    va = a[1] if a[0] == 'in' else frozenset([a[1]]) if a[0] == '=' else None
    vb = b[1] if b[0] == 'in' else frozenset([b[1]]) if b[0] == '=' else None
    if va and vb and all(isinstance(x, T) for x in va | vb):
        return frozenset([(k, ('in', va | vb))])
    dom = DOM.get(k)
    if dom is not None and a[0] == '=' and b[0] == '=':
        r = dom - {a[1], b[1]}
        return frozenset([(k, ('!', frozenset(r)))]) if r else frozenset()
    if dom is None and a[0] == '=' and b[0] == '=' and isinstance(a[1], int) and {a[1], b[1]} == {0, 1} and k.op not in ('len', 'lin', 'phi', 'loopval', 'fld', 'app', 'elem'):
        return frozenset()
    if dom is not None and a[0] == '!' and b[0] == '=' or dom is not None and a[0] == '=' and b[0] == '!':
        pass
    return None


def merge_parts(eng, parts):
    """Join loop partitions with equal effects that differ in one complementary fact."""
    groups = {}
    for f, u, e in parts:
        groups.setdefault((u, e), []).append(f)
    out = []
    for (u, e), fs in groups.items():
        sts = [State({}, dict(f), ()) for f in fs]
        sts = eng.merge_states(sts) if len(sts) > 1 else sts
        for s in sts:
            out.append((frozenset(s.facts.items()), u, e))
    return sorted(out, key=lambda p: repr(sorted(map(repr, p[0]))))


def cname(c, names):
    if isinstance(c, tuple) and isinstance(c[0], int):
        n = (names or {}).get(c)
        return n if n else 'v%d.%d' % c
    if isinstance(c, tuple) and c[0] == 'heap':
        return 'heap:%d' % c[1].id
    return str(c)


def fr_names(fr):
    out = {}
    for n, pl in fr.body['names']:
        if not pl[1]:
            out[(fr.key, pl[0])] = n
    return out


# ---------------------------------------------------------------- collections
def comment_free(t, name):
    """Text already behind remove_comments (property C22 of that function): removing comments again is the identity."""
    while t.op == 'app' and t.a[0] in ('trim', 'trim_start', 'trim_end'):
        t = t.a[1]
    return t.op == 'app' and t.a[0] == name


def length(t):
    if t.op == 'vec':
        return Int(len(t.a))
    if t.op == 'str':
        return Int(len(t.a[0].encode()))
    if t.op == 'bytes':
        return Int(len(t.a[0]))
    if t.op == 'push':
        return add(length(t.a[0]), Int(1))
    if t.op == 'emptymap':
        return Int(0)
    if t.op in ('sorted', 'reversed'):
        return length(t.a[0])
    if t.op in ('keys', 'entries', 'values') and isinstance(t.a[0], T):
        return length(t.a[0])
    return raw('len', t)


def elem_of(t, k):
    if t.op == 'vec' and k.op == 'int' and 0 <= k.a[0] < len(t.a):
        return t.a[k.a[0]]
    if t.op == 'vec' and k.op in ('k', 'hit') and len(t.a) == 1:
        return t.a[0]
    if t.op == 'withe':
        if t.a[1] is k:
            return t.a[2]
        if k.op == 'int' and t.a[1].op == 'int':
            return elem_of(t.a[0], k)
    return raw('elem', t, k)


def with_elem(t, k, v):
    if t.op == 'vec' and k.op == 'int' and 0 <= k.a[0] < len(t.a):
        fs = list(t.a)
        fs[k.a[0]] = v
        return raw('vec', *fs)
    if t.op == 'withe' and t.a[1] is k:
        t = t.a[0]
    return raw('withe', t, k, v)


def elemwise(bv, v, depth, first=False):
    while bv.op in ('withe', 'mput'):
        k = bv.a[1]
        if bv.op == 'mput' and not (k.op == 'elem' and k.a[0].op == 'keys'):
            return False
        if not contains(k, lambda x: x.op == 'k' and x.a[0] == depth) and \
                not (first and (k is Int(0) or k.op == 'elem' and k.a[1] is Int(0))):
            return False
        bv = bv.a[0]
    return bv is v


ITER = {'it', 'itm', 'imap', 'ifilter', 'ifmap', 'ires', 'irev', 'ichain', 'ienum', 'iskip', 'itake', 'izip', 'iflat',
        'ipeek', 'itakew', 'imapw', 'iskipw', 'drive', 'rest', 'iempty', 'ionce', 'irange', 'iscan', 'iinspect'}


def literal_it(t):
    """An iterator over a short literal list, at a known position."""
    while t.op in ('imap', 'ienum'):
        t = t.a[0]
    return t.op == 'it' and isinstance(t.a[0], T) and t.a[0].op == 'vec' and 0 < len(t.a[0].a) <= 8 and not isinstance(t.a[1], T)


def is_iter(t):
    return t.op in ITER


def iter_shape(t):
    """Iterator term with positions erased."""
    if t.op in ('it', 'itm'):
        return (t.op, t.a[0])
    if t.op == 'irange':
        return ('irange', t.a[1])
    if t.op == 'itmv':
        return ('itmv', t.a[0], t.a[1])
    if t.op in ('drive', 'rest'):
        return iter_shape(t.a[0])
    if t.op in ('ienum', 'irev'):
        return (t.op, iter_shape(t.a[0]))
    if t.op in ITER:
        return (t.op,) + tuple(iter_shape(x) if isinstance(x, T) and x.op in ITER else x for x in t.a)
    return (t,)


def simplify_fold(eng, lp, lt, key):
    """Recognise `collect everything` and other closed forms of a folded location."""
    init = dict(lp.inits).get(key)
    phi = raw('phi', lp.depth, key)
    if lp.it is None or init is None:
        return None
    ups = []
    for f, u, e in lp.parts:
        ups.append((f, dict(u).get(key, phi)))
    real = [(f, u) for f, u in ups if u is not phi]
    if not real:
        return init
    if len(ups) == 1 and init.op == 'vec' and not init.a:
        f, u = ups[0]
        if u.op == 'push' and u.a[0] is phi:
            el = generic_elem(lp.it, lp.depth)
            extra = [x for x in f if not (isinstance(x[0], T) and x[0].op == 'more')]
            if el is not None and u.a[1] is el and not extra:
                return list_of(lp.it)
    return None


def generic_elem(it, depth):
    if it.op == 'it':
        return elem_of(it_src(it), raw('k', depth))
    if it.op == 'irev':
        return generic_elem(it.a[0], depth)
    return None


def it_src(it):
    if it.a[1] == 0:
        return it.a[0]
    return raw('from', it.a[0], it.a[1])


def list_of(it):
    if it.op == 'it' and it.a[1] == 0:
        return it.a[0]
    if it.op == 'irev':
        x = raw('reversed', list_of(it.a[0]))
        return raw('from', x, it.a[1]) if len(it.a) > 1 and it.a[1] else x
    return raw('list', it)
