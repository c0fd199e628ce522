"""The same input gives the same output.

Two things can make output vary between runs. (1) The order in which a hash table
is walked: in every function that walks one, each printed, written or returned
value is followed back; it may depend on the walk only through something that is
the same for every order (a sort by the key, a set, a count, a search, the only
element). (2) Sources that differ between runs (clocks beyond today's date,
random numbers, process and thread numbers, directory listings, addresses): a
value derived from one must not be printed, written or returned to where it is."""
import re

from ..base import *
from ..acc import *
from .. import effects, pools

WALK = re.compile(r'^std::collections::Hash(Map|Set)(::<[^>]*>)?::(iter|iter_mut|keys|values|values_mut|into_keys|into_values|drain|retain|extract_if|union|intersection|difference|symmetric_difference)$')
OUT = {'print', 'eprint', 'io_write', 'write'}


def hash_ty(ana, ty):
    t = ana.p.ty(ty)
    while t['k'] in ('ref', 'ptr'):
        t = ana.p.ty(t['e'])
    return t['k'] == 'adt' and t['name'] in ('std::collections::HashMap', 'std::collections::HashSet')


def walkers(ana):
    """{function: [lines]} that walk a hash table"""
    out = {}
    for i in ana.p.local:
        if not i['body']:
            continue
        for n, c, l, t in ana.calls(i):
            full = c['name'] if c else n
            if WALK.match(n) or n == 'std::iter::IntoIterator::into_iter' and re.search(r'<&?(mut )?std::collections::Hash(Map|Set)<', full):
                out.setdefault(i['id'], []).append(l)
    return out


def deep(t, pred, seen=None):
    """like contains, looking into the loops a term refers to as well"""
    seen = set() if seen is None else seen
    if contains(t, pred):
        return True
    for x in walk(t):
        if x.op == 'loop' and x not in seen:
            seen.add(x)
            lp = loop_of(x)
            ts = [v for v in (lp.inits.values() if isinstance(lp.inits, dict) else [y for _, y in lp.inits])]
            ts += [lp.it] if lp.it is not None else []
            for f, u, ev in lp.parts:
                ts += [k for k, _ in f] + list(u.values() if isinstance(u, dict) else [y for _, y in u])
            if any(isinstance(y, T) and deep(y, pred, seen) for y in ts):
                return True
    return False


class Order:
    def __init__(self, ana, s):
        self.ana, self.s, self.h = ana, s, s.eng.hashed
        self.memo = {}

    def unordered(self, l):
        """a list in the order of a hash table -> its kind ('keys', 'entries', 'values'), else None"""
        while l.op in ('list', 'from', 'reversed', 'take'):
            l = l.a[0]
            if not isinstance(l, T):
                return None
        if l.op in ('keys', 'entries', 'values') and l.a[0] in self.h:
            return l.op
        return None

    def total(self, kind, how):
        """does the comparison leave no ties?  True / False / None"""
        if how == 'natural':
            return True
        if not (isinstance(how, tuple) and how[0] == 'by'):
            return None
        a = Sym('#a')
        ident = {'keys': a, 'entries': raw('fld', a, '0'), 'values': a}[kind]
        seen, odd = False, False
        for row in how[2]:
            ts = [x for x in ([row[1]] + [f[0] for f in row[2]]) if isinstance(x, T)]
            for t in ts:
                for x in walk(t):
                    if x.op in ('lt', 'eq', 'cmp') and any(y is ident for y in x.a) or x.op == 'app' and str(x.a[0]).endswith('cmp') and any(y is ident for y in x.a[1:]):
                        seen = True
                    if x.op == 'app' and not str(x.a[0]).split('::')[-1] in ('cmp', 'partial_cmp', 'len', 'to_lowercase', 'to_uppercase', 'to_ascii_lowercase'):
                        odd = True
            if row[0] == 'key':
                k = row[1]
                if k is ident or k.op == 'agg' and any(y is ident for y in k.a[2:]):
                    seen = True
        if seen:
            return True
        return None if odd else False

    def leaks(self, t, st, out):
        """collects (definite?, term) places where t depends on the order of a hash table"""
        o = t.op
        if o in ('len', 'setof', 'found', 'sym', 'int', 'num', 'str', 'mapof'):
            return
        if o == 'has':
            return self.leaks(t.a[1], st, out)
        if o == 'sorted':
            k = self.unordered(t.a[0])
            if k:
                r = self.total(k, t.a[1])
                if r is not True:
                    out.append((r is False, t))
                return
            inner = []
            self.leaks(t.a[0], st, inner)
            if inner:
                # elements computed from the walk, then sorted: the same if sorted by all of it
                if t.a[1] != 'natural':
                    out.append((False, t))
            return
        if o in ('keys', 'entries', 'values') and t.a[0] in self.h:
            out.append((self.some(t.a[0], st), t))
            return
        if o == 'elem':
            i = t.a[1]
            if i.op == 'k':
                return
            k = self.unordered(t.a[0])
            if k:
                m = t.a[0]
                while m.op in ('list', 'from', 'keys', 'entries', 'values', 'reversed', 'take'):
                    m = m.a[0]
                if self.one(m, st):
                    return
                out.append((i.op == 'int' and self.some(m, st), t))
                return
        if o == 'loopval':
            return self.loopval(t, st, out)
        for x in t.a:
            if isinstance(x, T):
                self.leaks(x, st, out)

    def lens(self, m, st):
        return [raw('len', m), raw('len', raw('keys', m)), raw('len', raw('entries', m)), raw('len', raw('values', m))]

    def one(self, m, st):
        for l in self.lens(m, st):
            if E.decide(st, Eq(l, Int(1))) == 1 or E.decide(st, Lt(Int(1), l)) == 0 or E.decide(st, Lt(l, Int(2))) == 1:
                return True
        return False

    def some(self, m, st):
        """nothing in the path condition keeps the table from having two elements (and we understand it)"""
        ls = self.lens(m, st)
        for k in st.facts:
            if isinstance(k, T) and k not in ls and contains(k, lambda x: x in ls) and not (k.op in ('eq', 'lt') and any(y in ls for y in k.a)):
                return False
        return not self.one(m, st)

    def loopval(self, t, st, out):
        lp = loop_of(t.a[0])
        init = dict(lp.inits).get(t.a[1]) if not isinstance(lp.inits, dict) else lp.inits.get(t.a[1])
        if init is not None and isinstance(init, T):
            self.leaks(init, st, out)
        w = self.walked(lp.it, st)
        walked = w is not None
        try:
            a = acc(t)
        except Exception:
            a = None
        if a is None:
            if walked:
                out.append((False, t))
            return
        for f, u in a.rows:
            fs = fstate(f)
            inner = []
            if walked:
                if u is a.phi or self.commutes(u, a.phi, a.el):
                    continue
                definite = (u.op in ('push', 'cat', 'padd') or u.op == 'app' and str(u.a[0]).endswith('replace') and u.a[1] is a.phi) and deep(u, lambda x: x is a.el or x.op == 'k' and x.a[0] == lp.depth) and self.open(f, a.el, lp)
                definite |= u.op == 'concat' and deep(u, lambda x: x.op == 'k' and x.a[0] == lp.depth)
                out.append((bool(definite and w), t))
                return
            self.leaks(u, fs, inner)
            out.extend(inner)

    def open(self, f, el, lp):
        """several elements may meet the condition"""
        for k, v in f:
            if not isinstance(k, T) or k.op == 'more':
                continue
            if k.op == 'eq' and v == ('=', 1) and not any(num(x) is not None or x.op == 'str' for x in k.a):
                return False
            if not deep(k, lambda x: x.op == 'k' and x.a[0] == lp.depth):
                return False
        return True

    def commutes(self, u, phi, el):
        """the same whatever order the elements come in"""
        if u.op == 'mput' and u.a[0] is phi:
            v = u.a[2]
            return not contains(u.a[1], lambda x: x is phi) and not contains(v, lambda x: x is phi)
        if not contains(u, lambda x: x.op in ('elem', 'k')) and u.op in ('int', 'num', 'str', 'agg', 'lin', 'sym'):
            return True
        if u.op == 'lin' and not contains(u, lambda x: x.op == 'elem'):
            return True
        return False

    def walked(self, it, st):
        """does the iterator go through its elements in the order of a hash table?  None / definite?"""
        if it is None:
            return None
        out = []
        for x in walk(it):
            if x.op == 'itmv':
                if any(self.points(x.a[0], m) for m in self.h):
                    out.append((True, x))
            elif x.op == 'it' and isinstance(x.a[0], T):
                self.leaks(x.a[0], st, out)
        return None if not out else any(d for d, _ in out)

    def points(self, ref, m):
        try:
            return any(self.ana_load(ref, st) is m for st, _ in self.s.outs) or m.op == 'fld' and any(isinstance(e, tuple) and e and e[0] == 'f' for e in ref.a[1]) and self.tail(ref, m)
        except Exception:
            return False

    def tail(self, ref, m):
        e = ref.a[1][-1]
        return e[0] == 'f' and m.op == 'fld' and self.fname(e) == m.a[1]

    def fname(self, e):
        fs = self.ana.p.adts[e[1]]['variants'][e[2] or 0]['fields']
        return fs[e[3]]

    def ana_load(self, ref, st):
        from ..models import keys_of
        return keys_of(self.s.eng.load(st, ref.a[0], ref.a[1])).a[0]



DISPLAY = re.compile(r' as std::fmt::(Display|Debug)>::fmt$')


def roots(ana, ids):
    """the API functions (and entry points) in whose summaries the bodies `ids` are inlined"""
    api = set(API)
    nm = lambda i: i['name'].replace('silverfox::', '')
    up = {}
    for i in ana.p.local:
        if i['body']:
            for j in ana.refs(i):
                up.setdefault(j, set()).add(i['id'])
    out, seen, todo = {}, set(), [(i, i) for i in ids]
    while todo:
        i, src = todo.pop()
        if (i, src) in seen:
            continue
        seen.add((i, src))
        inst = ana.p.insts.get(i)
        if inst is None or not inst['local'] or not inst['body']:
            continue
        callers = {c for c in up.get(i, ()) if c != i}
        if nm(inst) in api or not callers or DISPLAY.search(nm(inst)):
            out.setdefault(i, set()).add(src)
        else:
            todo += [(c, src) for c in callers]
    return out


def run(ana, R):
    def hashes():
        ws = walkers(ana)
        if not ws:
            R.ok('hash-order', '-', 'no function walks a hash table')
        todo, left = sorted(roots(ana, ws).items()), set(ws)
        while todo:
            r, srcs = todo.pop(0)
            inst = ana.p.insts[r]
            lines = sorted({'%s:%s' % (ana.p.insts[i]['file'], l) for i in srcs for l in ws[i]})
            try:
                s = ana.summ(inst)
            except Unknown as e:
                R.unk('hash-order', lines[0], '%s: %s' % (inst['name'], e))
                s = None
            if s is not None:
                mine = {i for i in srcs if i == r or i in s.eng.visited}
                left -= mine
                if mine:
                    judge(s, inst, sorted({'%s:%s' % (ana.p.insts[i]['file'], l) for i in mine for l in ws[i]}))
            if not todo and left:
                # not inlined anywhere: each on its own
                todo = [(i, {i}) for i in sorted(left)]
                left = set()

    def judge(s, inst, lines):
        o = Order(ana, s)
        name = inst['name'].replace('silverfox::', '')
        found = {}

        def note(definite, what, t, facts):
            k = (what, definite)
            if k not in found:
                found[k] = (t, facts)

        def visit(ev, st, loops):
            for e in ev:
                if e[0] == 'loop':
                    lp = loop_of(e[1])
                    for f, u, pe in lp.parts:
                        visit(pe, fstate(f), loops + [(lp, o.walked(lp.it, st))])
                    continue
                if not output(e):
                    continue
                out = []
                ts = [x for x in e[1:-1] if isinstance(x, T)]
                for t in ts:
                    o.leaks(t, st, out)
                for d, t in out:
                    note(d, 'output', t, fstr(E.fkey(st)))
                for lp, w in loops:
                    if w is None:
                        continue
                    if any(deep(t, lambda x: x.op in ('k', 'idx') and x.a[0] == lp.depth) for t in ts):
                        note(w, 'output', lp.it, fstr(E.fkey(st)))
        for st, v in s.outs:
            visit(st.ev, st, [])
            if v is not None:
                out = []
                o.leaks(v, st, out)
                for d, t in out:
                    note(d, 'result', t, facts_str(st))
            for c, m in st.mem.items():
                if isinstance(c, tuple) and c[0] == 'arg':
                    out = []
                    o.leaks(m, st, out)
                    for d, t in out:
                        note(d, 'result', t, facts_str(st))
        if not found:
            for l in lines:
                R.ok('hash-order', l, '%s: nothing printed, written or returned depends on the order of the hash table' % name)
        for (what, d), (t, facts) in found.items():
            if what == 'result' and d and t.op in ('keys', 'entries', 'values', 'loopval') and sorts_after(inst):
                d = False
            if d:
                R.bad('hash-order', lines[0], '%s: %s depends on the order of a hash table: %s' % (name, 'what is printed or written' if what == 'output' else 'the result', pp(t)[:120]), facts)
            else:
                R.unk('hash-order', lines[0], '%s: %s may depend on the order of a hash table: %s' % (name, what, pp(t)[:120]))

    def sorts_after(inst):
        """a caller sorts something: the order of the result may not matter"""
        for i in ana.p.local:
            if i['body'] and inst['id'] in ana.refs(i):
                if any(re.search(r'::sort\w*$', n) for n, c, l, t in ana.calls(i)):
                    return True
        return False

    printers = {}

    def output(e):
        if e[0] in OUT:
            return True
        n = e[0]
        if n not in printers:
            insts = [i for i in ana.p.local if i['name'].replace('silverfox::', '') == n]
            printers[n] = bool(insts) and any(
                re.match(r'std::io::(stdio::)?_e?print$|std::io::Write::', c) for r in insts for j in ana.reach(r)
                for b in [ana.p.insts.get(j)] if b and b['body'] and b['local'] for c, _, _, _ in ana.calls(b))
        return printers[n]
    R.section('hash-order', hashes)
    R.section('sources', lambda: sources(ana, R))


# ------------------------------------------------------------------ other sources
SRC = re.compile(
    r'^std::time::(SystemTime|Instant)::(now|elapsed)$|^chrono::(Local|Utc|offset::\w+)::(now|today)$|^std::process::id$|^std::thread::(current|spawn)$'
    r'|^std::thread::|RandomState::new$|BuildHasher::(hash_one|build_hasher)$|^rand::|^getrandom::|^std::fs::read_dir$|^std::env::vars(_os)?$'
    r'|^std::fs::Metadata::(modified|accessed|created)$|fmt::rt::Argument::<\'_>::new_pointer|Argument::new_pointer$|::addr$|^std::hash::DefaultHasher')
DAY = re.compile(r'::(date_naive|date|today|naive_date|year|month|month0|day|day0|ordinal|ordinal0|weekday|iso_week|num_days_from_ce|with_year|len|is_empty|count)$')
FINE = re.compile(r'::(sort\w*|drop|is_\w+|contains\w*)$')
PRINT = re.compile(r'^std::io::(stdio::)?_e?print$|^std::io::Write::|^std::fs::write$|^std::fmt::Write::|^std::fmt::Formatter.*::(write|pad)')


def locals_in(x, out):
    """locals mentioned in an operand / rvalue / place of the dump"""
    if isinstance(x, list):
        if len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], list):
            out.add(x[0])
            locals_in(x[1], out)
            return
        for y in x:
            locals_in(y, out)
    elif isinstance(x, dict):
        for y in x.values():
            locals_in(y, out)


def flow(ana, i, taint_fn, params, start):
    """locals of one body that may hold a varying value -> {local: source}; prints; calls with varying arguments"""
    bd = i['body']
    tl = dict(start)
    owner = {}           # reference or pointer -> what it points into
    for b in bd['blocks']:
        for st in b['s']:
            if st[0] == '=' and not st[1][1] and (st[2][0] == 'ref' or st[2][0] in ('cast', 'use')
                                                   and ana.p.ty(bd['locals'][st[1][0]])['k'] in ('ref', 'ptr')):
                ls = set()
                locals_in(st[2], ls)
                owner.setdefault(st[1][0], set()).update(ls)

    def mark(x, w):
        if x in tl:
            return False
        tl[x] = w
        return True

    def up(x, w):
        ch, todo = False, [x]
        while todo:
            for y in owner.get(todo.pop(), ()):
                if mark(y, w):
                    ch = True
                    todo.append(y)
        return ch
    hit, handed, changed = [], {}, True
    while changed:
        changed = False
        for b in bd['blocks']:
            for st in b['s']:
                if st[0] != '=':
                    continue
                src = set()
                locals_in(st[2], src)
                w = next((tl[x] for x in sorted(src) if x in tl), None)
                if w:
                    changed |= mark(st[1][0], w)
                    if '*' in st[1][1]:
                        changed |= up(st[1][0], w)
            t = b['t']
            if t[0] != 'call' or t[1][0] != 'k':
                continue
            ty = ana.p.ty(t[1][1]['t'])
            if ty['k'] != 'fndef':
                continue
            name, iid = ty['name'], ty.get('inst')
            args = set()
            locals_in(t[2], args)
            w = None
            if SRC.search(name):
                w = '%s (%s:%s)' % (name, i['file'], b['l'])
            elif iid in taint_fn:
                w = taint_fn[iid]
            elif not DAY.search(name) and not FINE.search(name):
                w = next((tl[x] for x in sorted(args) if x in tl), None)
                if w and PRINT.search(name):
                    hit.append((w, b['l']))
                if w and ana.p.insts.get(iid) and ana.p.insts[iid]['local']:
                    for ai, op in enumerate(t[2]):
                        ls = set()
                        locals_in([op], ls)
                        for x in ls:
                            if x in tl:
                                handed.setdefault((iid, ai), tl[x])
                if w:
                    for x in args:       # handed over by reference: may be changed
                        tt = ana.p.ty(bd['locals'][x])
                        if tt['k'] == 'ref' and tt.get('mut'):
                            changed |= mark(x, w) | up(x, w)
            if w:
                changed |= mark(t[3][0], w)
    return tl, hit, handed


def sources(ana, R):
    taint_fn = {}        # function whose result varies -> where it comes from
    params = {}          # (function, argument) that may hold such a value
    bodies = [i for i in ana.p.local if i['body']]
    n = None
    while n != (len(taint_fn), len(params)):
        n = len(taint_fn), len(params)
        bad, branch = {}, {}
        for i in bodies:
            tl, hit, handed = flow(ana, i, taint_fn, params, {})
            if 0 in tl:
                taint_fn.setdefault(i['id'], tl[0])
            start = {a + 1: params[(i['id'], a)] for a in range(i['body']['argc']) if (i['id'], a) in params}
            if start:
                tl, hit, handed = flow(ana, i, taint_fn, params, start)
            for k, w in handed.items():
                params.setdefault(k, w)
            for w, l in hit:
                bad[(i['id'], l)] = (i, w, l)
            for b in i['body']['blocks']:
                if b['t'][0] == 'switch':
                    ls = set()
                    locals_in(b['t'][1:2], ls)
                    for x in ls:
                        if x in tl:
                            branch[(i['id'], b['l'])] = (i, tl[x], b['l'])
    bad, branch = list(bad.values()), list(branch.values())
    for i, w, l in bad:
        R.bad('sources', '%s:%s' % (i['file'], l), '%s prints or writes a value that differs from run to run: %s' % (i['name'], w))
    for i, w, l in branch:
        R.unk('sources', '%s:%s' % (i['file'], l), '%s branches on a value that differs from run to run: %s' % (i['name'], w))
    k = 0
    for i in ana.p.local:
        if i['body']:
            for n, c, l, t in ana.calls(i):
                if SRC.search(n):
                    k += 1
                    if not any(w.endswith('(%s:%s)' % (i['file'], l)) for _, w, _ in bad + branch):
                        R.ok('sources', '%s:%s' % (i['file'], l), '%s: only the date is used' % n)
    if not k:
        R.ok('sources', '-', 'no such source is used')
