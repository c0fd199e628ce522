"""A report shows all of what it is about.

Effect summaries of the reports: what is printed, in which loops, with which
values in it.  Every element of what is reported on reaches its line, and the
line shows that element's own values."""
from ..base import *
from ..acc import base_it, leaves_out, cut_short
from .. import pools
from .c20 import appn

STATUS = {'Pending': '?', 'Cleared': '~', 'Reconciled': '*'}
TAMEV = {'fld', 'elem', 'k', 'loopval', 'sym', 'int', 'num', 'str', 'len', 'keys', 'at', 'entries', 'lt', 'eq', 'discr', 'more', 'phi', 'sorted', 'values', 'pzero', 'not', 'lin', 'abs', 'neg'}


def pieces(t):
    """the parts of a text, padding removed: [(term, cut?)]"""
    if t.op == 'cat':
        return [x for y in t.a for x in pieces(y)]
    if t.op == 'pad':
        o = t.a[1]
        cut = any(isinstance(x, tuple) and x[0] == 'prec' for x in o) or o[0] == 'w?' and isinstance(o[1], int) and o[1] & (1 << 28)
        return [(x, c or bool(cut)) for x, c in pieces(t.a[0])]
    return [(t, False)]


class Built:
    """A text built by a loop, as the loop that prints it"""
    def __init__(self, lt, c):
        self.lt = lt
        self.it, self.depth, self.where, self.inits = c.lp.it, c.lp.depth, c.lp.where, c.lp.inits
        self.parts = tuple((f, (), tuple(('print', y, c.lp.where) for k, y in r)) for f, r in c.rows)


def LP(x):
    return x if isinstance(x, Built) else loop_of(x)


def short(st, x):
    return cut_short(st, x.lt if isinstance(x, Built) else x)


def output(ev):
    """[('text', pieces) | ('loop', loop term) | ('call', event)] of a list of events"""
    out = []
    for e in ev:
        if e[0] in ('print', 'eprint'):
            if e[0] == 'print':
                for x in pieces(e[1]):
                    c = comp(x[0]) if x[0].op == 'loopval' else None
                    if c is not None and all(k == 'text' for f, r in c.rows for k, y in r) and not x[1]:
                        if c.init is not None and not (c.init.op == 'str' and not c.init.a[0]):
                            out += [('text', y) for y in pieces(c.init)]
                        out.append(('loop', Built(x[0].a[0], c)))
                    else:
                        out.append(('text', x))
        elif e[0] == 'loop':
            out.append(('loop', e[1]))
        else:
            out.append(('call', e))
    return out


def prints(lt):
    return any(y[0] == 'print' for f, u, ev in LP(lt).parts for y, _, _ in events(ev))


def rep(x):
    return x.op == 'repeat' or appn(x, 'repeat')


def lit(x):
    return x.op == 'str'


def shown(t, what):
    """t is the text of the value `what`"""
    return t is what or t.op == 'show' and t.a[1] is what


def unsorted_(l):
    while True:
        if l.op in ('sorted', 'reversed'):
            l = l.a[0]
        elif l.op == 'list' and l.a[0].op == 'it' and num(T_(l.a[0].a[1])) == 0:
            l = l.a[0].a[0]
        else:
            return l


def part_of(l):
    """(the list, whether only part of it is left)"""
    part = False
    while True:
        m = unsorted_(l)
        if m.op in ('take', 'from') and num(T_(m.a[1])) is not None and (m.op == 'take' or num(T_(m.a[1])) > 0):
            part, l = True, m.a[0]
        else:
            return m, part


def T_(x):
    return x if isinstance(x, T) else Int(x)


def inner(t):
    """subterms, not counting how a list that an element is taken from came about"""
    yield t
    for i, x in enumerate(t.a):
        if isinstance(x, T) and not (t.op == 'elem' and i == 0 and x.op == 'loopval'):
            yield from inner(x)


def tame(f):
    """what the facts say is understood in full"""
    return all(all(z.op in TAMEV or z.op in ('app', 'agg', 'min', 'max', 'tuple') for z in inner(k)) for k, _ in f if isinstance(k, T)) and not any(isinstance(k, T) and (k.op == 'found' or any(z.op == 'loopval' for z in inner(k))) for k, _ in f)


def interval(f, m):
    """(lo, open?, hi, open?) that facts comparing m with constants leave for it"""
    lo, lop, hi, hop = None, True, None, True
    for k, z in f:
        if not isinstance(k, T) or z[0] != '=':
            continue
        if k is m and num(T_(z[1])) is not None:
            return num(T_(z[1])), False, num(T_(z[1])), False
        if k.op != 'lt':
            continue
        a, b = k.a
        if a is m and num(b) is not None:
            c, up = num(b), z[1] == 1
            strict = z[1] == 1
        elif b is m and num(a) is not None:
            c, up = num(a), z[1] == 0
            strict = z[1] == 1
        else:
            continue
        if up:
            if hi is None or c < hi or c == hi and strict:
                hi, hop = c, strict
        elif lo is None or c > lo or c == lo and strict:
            lo, lop = c, strict
    return lo, lop, hi, hop


def cond(f):
    return [k for k, z in f if isinstance(k, T) and k.op != 'more']


def ended(f):
    return any(isinstance(k, T) and k.op == 'more' and z == ('=', 0) for k, z in f)


def run(ana, R):
    p0, p1, p2, p4 = (Sym('P%d' % i) for i in (0, 1, 2, 4))

    # ------------------------------------------------------------ balances
    def balances():
        n, GT = 'ledger::Ledger::display_flat_balance', 'ledger::Ledger::get_totals'
        ana.fn(GT)
        s = ana.summ(n, opaque=(GT,))
        tot = payload_ok(raw('app', GT, p0))
        done = 0
        for st, v in s.outs:
            if not is_ok(v):
                continue
            out = output(st.ev)
            fx = facts_str(st)
            ls = [x for k, x in out if k == 'loop' and prints(x)]
            if [x for k, x in out if k == 'text' and not (lit(x[0]))]:
                R.unk('balances', s.where, 'something is printed outside the loop')
                continue
            if len(ls) != 1:
                if not ls and any(isinstance(k, T) and any(y is tot for y in walk(k)) for k in st.facts):
                    z = [k for k in st.facts if isinstance(k, T) and k.op == 'len']
                    (R.unk if z else R.bad)('balances', s.where, 'balances are not printed in a case: %s' % fx)
                elif not ls and not any(k == 'loop' for k, x in out):
                    R.bad('balances', s.where, 'balances are not printed', fx)
                else:
                    R.unk('balances', s.where, 'loops not recognised')
                continue
            done += 1
            lt = ls[0]
            lp = LP(lt)
            where = '%s:%s' % lp.where
            if short(st, lt):
                R.bad('balances', where, 'the balances are cut short', fx)
                continue
            each(lp, where, 'balances', tot, lambda el, l: account_line(el, l, tot), 'an account')
        if not done:
            R.unk('balances', s.where, 'no balances printed')

    def account_line(el, l, m):
        """name and total of an element of the map m"""
        if l is m or l.op == 'entries' and l.a[0] is m:
            return [('name', raw('fld', el, '0')), ('total', raw('fld', el, '1'))]
        if l.op == 'keys' and l.a[0] is m:
            return [('name', el), ('total', raw('at', m, el))]
        return None

    def each(lp, where, rule, whole, want, what):
        """every element gets one line with what `want` lists, in that order"""
        lst, st0, exact = base_it(lp.it)
        if leaves_out(lp.it):
            R.bad(rule, where, 'not every one is shown: %s' % pp(lp.it, 4))
            return
        it = lp.it
        filt = False
        while it is not None and it.op in ('ifilter', 'icloned', 'iinspect'):
            filt |= it.op == 'ifilter'
            it = it.a[0]
        if lst is None and it is not None and it.op == 'it' and num(T_(it.a[1])) == 0:
            lst = it.a[0]
        if lst is None:
            R.unk(rule, where, 'loop over %s' % pp(lp.it, 4))
            return
        el = E.elem_of(lst, raw('k', lp.depth))
        exp = want(el, unsorted_(lst))
        if exp is None and part_of(lst)[1] and want(el, part_of(lst)[0]) is not None:
            R.bad(rule, where, 'not every one is shown: %s' % pp(lst, 4))
            return
        if exp is None:
            R.unk(rule, where, 'loop over %s' % pp(lst, 4))
            return
        for f, u, ev in lp.parts:
            if ended(f):
                continue
            out = output(ev)
            fx = fstr(f)
            if any(k == 'loop' and prints(x) for k, x in out):
                R.unk(rule, where, 'a loop within a line')
                continue
            tx = [x for k, x in out if k == 'text']
            if not tx:
                cs = cond(f)
                if not cs:
                    R.bad(rule, where, '%s is not shown' % what, fx)
                elif tame(f):
                    R.bad(rule, where, '%s is not shown in a case' % what, fx)
                else:
                    R.unk(rule, where, '%s is not shown in a case: %s' % (what, fx))
                continue
            if filt and cond(f):
                (R.bad if tame(f) else R.unk)(rule, where, '%s is shown only in a case: %s' % (what, fx))
                continue
            line(rule, where, tx, exp, fx)

    def line(rule, where, tx, exp, fx):
        pos = []
        for nm, t in exp:
            i = [j for j, (x, c) in enumerate(tx) if shown(x, t)]
            if not i:
                # not there in any form?
                if any(any(y is t for y in walk(x)) for x, c in tx):
                    R.unk(rule, where, 'the %s is shown in a form not recognised' % nm)
                elif all(lit(x) or x.op == 'show' or x.op == 'fld' or rep(x) or any(shown(x, u) for _, u in exp) for x, c in tx):
                    R.bad(rule, where, 'the %s is not shown' % nm, fx)
                else:
                    R.unk(rule, where, 'the %s is not found in what is shown' % nm)
                return
            if any(tx[j][1] for j in i) and not tx[i[0]][0].op == 'show':
                R.bad(rule, where, 'the %s is cut off' % nm, fx)
                return
            pos.append(i[0])
        if pos != sorted(pos):
            R.bad(rule, where, 'the parts of a line are out of order', fx)
            return
        last = tx[-1][0]
        if not any(lit(x) and '\n' in x.a[0] for x, c in tx):
            R.bad(rule, where, 'lines run into each other', fx)
            return
        if lit(last):
            R.check(last.a[0].endswith('\n'), rule, where, 'each has its own line', fx)
        # parts next to each other are kept apart
        for i, j in zip(pos, pos[1:]):
            if j == i + 1:
                R.unk(rule, where, 'parts of a line are not kept apart')
                return
        R.ok(rule, where, 'a line shows %s' % ', '.join(nm for nm, t in exp))

    # ------------------------------------------------------------ envelopes
    def accounts():
        n, DE = 'ledger::Ledger::display_envelopes', 'account::Account::display_envelopes'
        ana.fn(DE)
        s = ana.summ(n, opaque=(DE,))
        acs = raw('fld', p0, 'accounts')
        done = 0
        for st, v in s.outs:
            fx = facts_str(st)
            ls = [x for k, x in output(st.ev) if k == 'loop' and any(y[0] == DE for f, u, ev in loop_of(x).parts for y, _, _ in events(ev))]
            if not ls and not is_err(v) and not any(True for _ in events(st.ev)):
                R.bad('envelopes', s.where, 'no account is shown', fx)
                continue
            if len(ls) != 1:
                R.unk('envelopes', s.where, 'loops not recognised')
                continue
            done += 1
            lp = LP(ls[0])
            where = '%s:%s' % lp.where
            if short(st, ls[0]):
                R.bad('envelopes', where, 'the accounts are cut short', fx)
                continue
            if leaves_out(lp.it):
                R.bad('envelopes', where, 'not every account is shown: %s' % pp(lp.it, 4))
                continue
            it = lp.it
            while it is not None and it.op in ('ifilter', 'icloned', 'iinspect'):
                it = it.a[0]
            lst = it.a[0] if it is not None and it.op == 'it' and num(T_(it.a[1])) == 0 else None
            base = unsorted_(lst) if lst is not None else None
            if base is None or not (base is acs or base.op in ('entries', 'keys', 'values') and base.a[0] is acs):
                R.unk('envelopes', where, 'loop over %s' % pp(lp.it, 4))
                continue
            el = E.elem_of(lst, raw('k', lp.depth))
            mine = (raw('at', acs, el),) if base.op == 'keys' else (raw('fld', el, '1'), raw('at', acs, raw('fld', el, '0'))) if base.op != 'values' else (el,)
            for f, u, ev in lp.parts:
                if ended(f):
                    continue
                es = [y for y, il, _ in events(ev) if y[0] == DE]
                if len(es) == 1 and es[0][1] in mine:
                    if lp.it.op == 'ifilter' and cond(f) and not any('envelopes' in pp(k) for k in cond(f)):
                        R.unk('envelopes', where, 'shown only in a case: %s' % fstr(f))
                    else:
                        R.ok('envelopes', where, 'every account is shown')
                elif len(es) > 1:
                    R.bad('envelopes', where, 'an account is shown twice', fstr(f))
                elif not es and not any('envelopes' in pp(k, 9) for k in cond(f)):
                    (R.bad if tame(f) else R.unk)('envelopes', where, 'an account is not shown: %s' % fstr(f))
                else:
                    R.unk('envelopes', where, 'accounts shown: %s' % fstr(f))
        if not done:
            R.unk('envelopes', s.where, 'no accounts shown')

    def account():
        n, GA = 'account::Account::display_envelopes', 'account::Account::get_available_value'
        ana.fn(GA)
        ana.need_fields('account::Account', 'name', 'expense_envelopes', 'goal_envelopes')
        ana.need_fields('amount::AmountPool', 'pool')
        s = ana.summ(n, opaque=(GA,))
        kinds = {f: raw('fld', p0, f) for f in ('expense_envelopes', 'goal_envelopes')}
        avail = raw('app', GA, p0)
        for st, v in s.outs:
            fx = facts_str(st)
            none = {f: E.decide(st, Eq(raw('len', t), Int(0))) for f, t in kinds.items()}
            if all(z == 1 for z in none.values()):
                R.ok('account', s.where, 'an account without envelopes is passed over')
                continue
            out = output(st.ev)
            tx = [x for k, x in out if k == 'text']
            if not out:
                (R.bad if tame(st.facts.items()) else R.unk)('account', s.where, 'the envelopes of an account are not shown: %s' % fx)
                continue
            if not any(shown(x, raw('fld', p0, 'name')) and not c for x, c in tx):
                (R.bad if all(lit(x) for x, c in tx) else R.unk)('account', s.where, 'the name of the account is not shown')
            else:
                R.ok('account', s.where, 'the name of the account is shown')
            seen, head = {}, ''
            odd = False
            for k, x in out:
                if k == 'text' and lit(x[0]) and x[0].a[0].strip():
                    head = x[0].a[0].strip()
                if k != 'loop':
                    continue
                lp = LP(x)
                if not prints(x):
                    continue
                lst, st0, exact = base_it(lp.it)
                it = lp.it
                while it is not None and it.op in ('ifilter', 'icloned'):
                    it = it.a[0]
                if it is not None and it.op == 'it':
                    lst, st0 = it.a[0], num(T_(it.a[1]))
                base, part = part_of(lst) if lst is not None else (None, False)
                w = [f for f, t in kinds.items() if base is t]
                if base is raw('fld', avail, 'pool') or base is avail:
                    w = ['available']
                if not w:
                    odd = True
                    continue
                seen[w[0]] = (x, lp, lst, head, part)
            for w, t in list(kinds.items()) + [('available', None)]:
                if w not in seen:
                    if none.get(w) == 1:
                        continue
                    if odd or any(any(y is (t if t is not None else avail) for y in walk(x)) for x, c in tx):
                        R.unk('account', s.where, 'the %s are not shown in a form recognised' % w)
                    else:
                        R.bad('account', s.where, 'the %s of an account are not shown' % w.replace('_', ' '), fx)
                    continue
                x, lp, lst, head, part = seen[w]
                where = '%s:%s' % lp.where
                if part or short(st, x) or leaves_out(lp.it):
                    R.bad('account', where, 'not all of the %s are shown' % w.replace('_', ' '), fx)
                    continue
                el = E.elem_of(lst, raw('k', lp.depth))
                for f, u, ev in lp.parts:
                    if ended(f):
                        continue
                    o = output(ev)
                    tt = [y for k, y in o if k == 'text']
                    if any(shown(y, el) for y, c in tt):
                        if lp.it.op == 'ifilter' and cond(f) and w != 'available':
                            (R.bad if tame(f) else R.unk)('account', where, 'one of the %s is shown only in a case: %s' % (w.replace('_', ' '), fstr(f)))
                        elif lp.it.op == 'ifilter' and cond(f):
                            mag = raw('fld', el, 'mag')
                            (R.ok if fdec(f, Eq(mag, Int(0))) == 0 and len(cond(f)) == 1 and cond(f)[0] in (mag, Eq(mag, Int(0))) else R.bad if tame(f) and any(k.op == 'lt' for k in cond(f)) else R.unk)('account', where, 'amounts available are shown: %s' % fstr(f))
                        else:
                            R.ok('account', where, 'each of the %s is shown' % w.replace('_', ' '))
                    elif tt:
                        R.unk('account', where, 'one of the %s is shown in a form not recognised' % w)
                    elif w == 'available' and fdec(f, Eq(raw('fld', el, 'mag'), Int(0))) == 1:
                        R.ok('account', where, 'nothing available in a currency is not shown')
                    elif any(k == 'loop' for k, y in o):
                        R.unk('account', where, 'a loop within')
                    else:
                        (R.bad if tame(f) else R.unk)('account', where, 'one of the %s is not shown: %s' % (w.replace('_', ' '), fstr(f)))
                other = {'expense_envelopes': 'goal', 'goal_envelopes': 'expense'}.get(w)
                if other and other in head and not (w.split('_')[0] in head):
                    R.bad('account', where, 'the %s are shown under `%s`' % (w.replace('_', ' '), head), fx)

    def envelope():
        n = None
        for i in ana.p.insts.values() if isinstance(ana.p.insts, dict) else ana.p.insts:
            nm = i['name'] if isinstance(i, dict) else i
            if nm.endswith('envelope::Envelope as std::fmt::Display>::fmt'):
                n = nm
        if n is None:
            raise Missing('Display of Envelope')
        ana.need_fields('envelope::Envelope', 'name', 'amount', 'next_amount', 'now_amount')
        s = ana.summ(n.replace('silverfox::', ''))
        now, nxt = (raw('fld', raw('fld', p0, f), 'mag') for f in ('now_amount', 'next_amount'))
        AF = ana.adt('amount::Amount')['variants'][0]['fields']
        due = raw('app', 'envelope::Envelope::get_next_due_date', p0)
        m0, x0 = E.normal(raw('min', now, Int(0))) if hasattr(E, 'normal') else raw('min', now, Int(0)), raw('max', now, Int(0))

        def dues(l):
            """dates shown that are another due date"""
            r = []
            for x, c in l:
                for y in walk(x):
                    if y.op == 'app' and (str(y.a[0]).endswith('get_last_due_date') or str(y.a[0]).endswith('Frequency::get_next_due_date') and y.a[1] is raw('fld', p0, 'freq')):
                        r.append(y)
            return r

        def okmag(kind, t, st):
            """True/False/None"""
            neg_, pos = E.decide(st, Lt(now, Int(0))), E.decide(st, Lt(Int(0), now))
            if kind == 'now':
                if t is x0 or t is raw('max', Int(0), now):
                    return True
                if t is now:
                    return True if neg_ == 0 or pos == 1 else False
                if num(t) == 0:
                    return True if neg_ == 1 or pos == 0 else False
            else:
                if t is add(nxt, m0) or t is add(nxt, raw('min', Int(0), now)):
                    return True
                if t is nxt:
                    return True if neg_ == 0 or pos == 1 else False
                if t is add(nxt, now):
                    return True if neg_ == 1 or pos == 0 else False
            if all(y.op in ('fld', 'sym', 'lin', 'min', 'max', 'int', 'num', 'abs', 'neg') for y in walk(t)):
                return False
            return None
        for st, v in s.outs:
            if not is_ok(v):
                continue
            fx = facts_str(st)
            t = ana.mem(st, 1)
            if t is None or t.op != 'cat':
                R.unk('envelope', s.where, 'text not recognised')
                continue
            ps = [(x, c) for x, c in pieces(t) if x is not p1]
            # lines
            lines, cur = [], []
            for x, c in ps:
                if lit(x) and '\n' in x.a[0]:
                    parts = x.a[0].split('\n')
                    cur.append((Str(parts[0]), c))
                    for q in parts[1:]:
                        lines.append(cur)
                        cur = [(Str(q), c)]
                else:
                    cur.append((x, c))
            lines.append(cur)
            if not any(shown(x, raw('fld', p0, 'name')) for x, c in ps):
                (R.bad if not any(any(y is raw('fld', p0, 'name') for y in walk(x)) for x, c in ps) else R.unk)('envelope', s.where, 'the name of an envelope is not shown')
            elif any(shown(x, raw('fld', p0, 'name')) and c for x, c in ps):
                R.bad('envelope', s.where, 'the name of an envelope is cut off', fx)
            else:
                R.ok('envelope', s.where, 'the name of an envelope is shown')
            for kind in ('now', 'next'):
                ls = [l for l in lines if any(lit(x) and x.a[0].strip().startswith(kind) for x, c in l)]
                if len(ls) != 1:
                    R.unk('envelope', s.where, 'the line for `%s` is not recognised' % kind)
                    continue
                am = [x.a[1] for x, c in ls[0] if x.op == 'show' and 'amount::Amount' in str(x.a[0])]
                if len(am) != 2:
                    R.unk('envelope', s.where, '`%s` shows %d amounts' % (kind, len(am)))
                    continue
                a = am[0]
                m = dict(zip(AF, a.a[2:])) if a.op == 'agg' else {'mag': raw('fld', a, 'mag'), 'symbol': raw('fld', a, 'symbol')}
                r = okmag(kind, m['mag'], st)
                if r is None:
                    R.unk('envelope', s.where, '`%s` shows %s' % (kind, pp(m['mag'], 5)))
                else:
                    R.check(r, 'envelope', s.where, '`%s` shows what is saved for it, with what is overspent taken from next (%s)' % (kind, pp(m['mag'], 5)), fx)
                sy = [raw('fld', raw('fld', p0, f), 'symbol') for f in ('now_amount', 'next_amount', 'amount')]
                if m['symbol'] not in sy:
                    (R.bad if m['symbol'] is NONE else R.unk)('envelope', s.where, '`%s` shows the currency %s' % (kind, pp(m['symbol'], 4)))
                if am[1] is raw('fld', p0, 'amount'):
                    R.ok('envelope', s.where, 'the amount of an envelope is shown')
                elif am[1].op == 'fld' and am[1].a[0] is p0:
                    R.bad('envelope', s.where, '`%s` is shown of the %s' % (kind, am[1].a[1]), fx)
                else:
                    R.unk('envelope', s.where, '`%s` is shown of %s' % (kind, pp(am[1], 4)))
                # the bar is that of the amount shown
                bars = [x for x, c in ls[0] if rep(x)]
                if bars and r:
                    o_ = nxt if kind == 'now' else None
                    if o_ is not None and any(y is o_ for x in bars for y in walk(x)) or kind == 'next' and not any(y is nxt for x in bars for y in walk(x)):
                        R.bad('envelope', s.where, 'the bar of `%s` is that of something else' % kind, fx)
                    else:
                        R.ok('envelope', s.where, 'the bar is that of the amount shown')
                if kind == 'next':
                    d = E.decide(st, Eq(discr(due), Int(1)))
                    dates = [x for x, c in ls[0] if any(y is payload(due) for y in walk(x))]
                    if d == 1:
                        if dates:
                            R.ok('envelope', s.where, 'the next due date is shown')
                        elif any(any(y.op == 'app' and 'due_date' in str(y.a[0]) for y in walk(x)) for x, c in ls[0]):
                            R.unk('envelope', s.where, 'due date shown not recognised')
                        else:
                            R.bad('envelope', s.where, 'the next due date is not shown', fx)
                    elif dues(ls[0]):
                        R.bad('envelope', s.where, 'the date shown is not the next due date: %s' % pp(dues(ls[0])[0], 4), fx)
                    elif d is None and not any(isinstance(k, T) and any(y.op == 'app' and 'due_date' in str(y.a[0]) for y in walk(k)) for k in st.facts) and not any(y.op == 'app' and 'due_date' in str(y.a[0]) for x, c in ps for y in walk(x)):
                        R.bad('envelope', s.where, 'the next due date is not shown', fx)

    # ------------------------------------------------------------ register
    def data():
        n, GB = 'entry::Entry::as_register_data', 'entry::Entry::get_blank_amount'
        ana.fn(GB)
        RF = ana.adt('entry::EntryRegisterData')['variants'][0]['fields']
        ana.need_fields('entry::EntryRegisterData', 'date', 'status', 'description', 'account_flow', 'amounts')
        ST = [v['name'] for v in ana.adt('entry::EntryStatus')['variants']]
        s = ana.summ(n, inline=(n,), opaque=(GB,), models=pools.models(), key='c31')
        loops = {}
        k = 0
        for st, v in s.outs:
            if not is_ok(v) or v.a[2] is NONE:
                continue
            rd = payload(v.a[2])
            if rd.op != 'agg':
                R.unk('register-data', s.where, 'data %s' % pp(rd, 3))
                continue
            k += 1
            fx = facts_str(st)
            d = dict(zip(RF, rd.a[2:]))
            if any(y is raw('fld', p0, 'date') for y in walk(d['date'])):
                R.ok('register-data', s.where, 'the date of the entry')
            else:
                R.unk('register-data', s.where, 'date %s' % pp(d['date'], 4))
            if d['description'] is raw('fld', p0, 'description'):
                R.ok('register-data', s.where, 'the description of the entry')
            else:
                (R.bad if lit(d['description']) or d['description'].op == 'fld' or appn(d['description'], 'to_lowercase', 'to_uppercase') or d['description'].op in ('sub', 'take') or d['description'].op == 'strof' and d['description'].a[0].op in ('take', 'from') else R.unk)('register-data', s.where, 'the description becomes %s' % pp(d['description'], 4))
            c = num(d['status'])
            sv = [i for i in range(len(ST)) if E.decide(st, Eq(discr(raw('fld', p0, 'status')), Int(i))) == 1]
            if c is not None and len(sv) == 1 and ST[sv[0]] in STATUS:
                R.check(STATUS[ST[sv[0]]] == chr(int(c)), 'register-data', s.where, 'the status of the entry (%s is %s)' % (ST[sv[0]], chr(int(c))), fx)
            elif c is not None and not sv:
                R.bad('register-data', s.where, 'every status is shown as %s' % chr(int(c)), fx) if not any(isinstance(q, T) and any(y is raw('fld', p0, 'status') for y in walk(q)) for q in st.facts) else R.unk('register-data', s.where, 'status not recognised')
            else:
                R.unk('register-data', s.where, 'status %s' % pp(d['status'], 4))
            lts = set(t.a[0] for t in walk(rd) if t.op == 'loopval')
            fl = d['account_flow']
            a = d['amounts']
            if a.op == 'agg' and all(y.op in ('agg', 'vec') for y in walk(a)):
                R.bad('register-data', s.where, 'what the selected accounts gained or lost is not counted: %s' % pp(a, 3), fx)
                continue
            if a.op != 'loopval' or fl.op not in ('tuple', 'agg') or len(fl.a) < 2:
                R.unk('register-data', s.where, 'amounts %s, accounts %s' % (pp(a, 3), pp(fl, 3)))
                continue
            frm, to = fl.a[-2:]
            for side, t in (('from', frm), ('to', to)):
                name_(st, s, side, t, a, fx, loops)
            loops.setdefault((a.a[0], a.a[1]), {})
        for (lt, key), sides in loops.items():
            rows(lt, key, sides, s, GB)
        if not k and any(is_ok(v) for st, v in s.outs) and all(is_err(v) or is_ok(v) and v.a[2] is NONE for st, v in s.outs):
            R.bad('register-data', s.where, 'no entry is ever shown')
        elif not k:
            R.unk('register-data', s.where, 'no data')

    def name_(st, s, side, t, a, fx, loops):
        sets = {x for x in walk(t) if x.op == 'loopval' and x.a[0] is a.a[0]}
        if lit(t):
            lens = [q for q in st.facts if isinstance(q, T) and q.op == 'len' and q.a[0].op == 'loopval' and q.a[0].a[0] is a.a[0]]
            if t.a[0].strip('()') in ('none', 'multiple') and lens:
                R.ok('register-data', s.where, '%s several accounts' % side)
                loops.setdefault((a.a[0], a.a[1]), {}).setdefault('lit', []).append((st, side, t, fx))
            else:
                loops.setdefault((a.a[0], a.a[1]), {}).setdefault('odd', set()).add(side)
                R.unk('register-data', s.where, '%s is %s' % (side, t.a[0]))
            return
        if t.op == 'elem' and num(t.a[1]) == 0 and len(sets) == 1:
            x = list(sets)[0]
            n1 = E.decide(st, Eq(raw('len', x), Int(1)))
            if n1 == 0 or E.decide(st, Lt(Int(1), raw('len', x))) == 1:
                R.bad('register-data', s.where, 'one of several accounts is shown as the only one', fx)
            elif n1 is None and not any(isinstance(q, T) and any(y is x for y in walk(q)) for q in st.facts if not (q.op == 'lt' and q.a[0] is Int(0))):
                R.bad('register-data', s.where, 'the first of possibly several accounts is shown as the only one', fx)
            else:
                R.ok('register-data', s.where, 'the account money comes from or goes to')
            loops.setdefault((a.a[0], a.a[1]), {}).setdefault(side, set()).add(x.a[1])
            return
        loops.setdefault((a.a[0], a.a[1]), {}).setdefault('odd', set()).add(side)
        R.unk('register-data', s.where, '%s is %s' % (side, pp(t, 4)))

    def zero_(f, m):
        lo, lop, hi, hop = interval(f, m)
        return lo == 0 == hi

    def rows(lt, key, sides, s, GB):
        lp = loop_of(lt)
        where = '%s:%s' % lp.where
        it = lp.it
        while it is not None and it.op in ('ifilter', 'icloned'):
            it = it.a[0]
        if it is None or it.op != 'it' or it.a[0] is not raw('fld', p0, 'postings'):
            R.unk('register-data', where, 'loop over %s' % pp(lp.it, 4))
            return
        if num(T_(it.a[1])) != 0 or leaves_out(lp.it):
            R.bad('register-data', where, 'not every posting is counted: %s' % pp(lp.it, 4))
            return
        el = E.elem_of(it.a[0], raw('k', lp.depth))
        cl = raw('fld', el, 'Classic.0')
        acct = raw('fld', cl, 'account')
        phi = raw('phi', lp.depth, key)
        fr, to = ({k for k in sides.get(x, ())} for x in ('from', 'to'))
        if len(fr) > 1 or len(to) > 1 or fr & to:
            R.bad('register-data', where, 'the same accounts are shown for where money comes from and goes to') if fr & to and len(fr) == len(to) == 1 else R.unk('register-data', where, 'accounts not recognised')
            return
        for side, ks in (('from', fr), ('to', to)):
            ls = {t.a[0] for st, d, t, fx in sides.get('lit', ()) if d == side}
            if not ks and ls and side not in sides.get('odd', ()):
                R.bad('register-data', where, 'the account money %s is never shown, only %s' % ('comes from' if side == 'from' else 'goes to', ' and '.join(sorted(ls))))
        for st, side, t, fx in sides.get('lit', ()):
            k = list(fr if side == 'from' else to)
            if not k:
                continue
            x = raw('loopval', lt, k[0])
            z, o = E.decide(st, Eq(raw('len', x), Int(0))), E.decide(st, Eq(raw('len', x), Int(1)))
            w = t.a[0].strip('()')
            if w == 'none' and z == 0 or w == 'multiple' and (z == 1 or o == 1):
                R.bad('register-data', where, '`%s` is shown although that is not so' % t.a[0], fx)
            elif w == 'none' and z == 1 or w == 'multiple' and z == 0 and o == 0:
                R.ok('register-data', where, '%s is shown where it is so' % t.a[0])
            else:
                R.unk('register-data', where, '%s shown under %s' % (t.a[0], fx))
        for f, u, ev in lp.parts:
            if ended(f):
                continue
            u = dict(u)
            fx = fstr(f)
            cls = fdec(f, Eq(discr(el), Int(0)))
            has = fdec(f, Eq(discr(raw('fld', cl, 'amount')), Int(1)))
            if cls != 1:
                if cls == 0:
                    R.check(u.get(key, phi) is phi, 'register-data', where, 'envelope postings are not counted', fx)
                else:
                    R.unk('register-data', where, 'kind of posting not decided')
                continue
            amt = payload(raw('fld', cl, 'amount')) if has == 1 else payload(payload_ok(raw('app', GB, p0))) if has == 0 else None
            if amt is None:
                R.unk('register-data', where, 'amount not decided: %s' % fx)
                continue
            if has == 0 and fdec(f, Eq(discr(payload_ok(raw('app', GB, p0))), Int(1))) == 0:
                continue              # an entry with a blank posting has an amount for it (C09)
            foc = [fdec(f, k) for k, z in f if isinstance(k, T) and (appn(k, 'contains') and k.a[1] is acct and k.a[2] is payload(p2) or appn(k, 'starts_with') and k.a[1] is acct and k.a[2].op == 'str')]
            new = u.get(key, phi)
            about = [k for k, z in f if isinstance(k, T) and any(y is acct for y in walk(k))]
            if not foc and not about and new is phi and tame(f) and not zero_(f, raw('fld', amt, 'mag')):
                R.bad('register-data', where, 'what a selected account gets or gives is not counted in a case', fx)
            elif not foc and not about and new is phi and zero_(f, raw('fld', amt, 'mag')):
                R.ok('register-data', where, 'nothing is not counted')
            elif len(foc) != 1:
                R.unk('register-data', where, 'selection not recognised: %s' % fx)
            elif new is phi:
                R.check(not foc[0], 'register-data', where, 'what a selected account gets or gives is counted', fx)
            elif new.op == 'padd' and new.a[0] is phi and new.a[1] is amt:
                R.check(bool(foc[0]), 'register-data', where, 'only selected accounts are counted', fx)
            elif new.op == 'padd' and new.a[0] is phi and new.a[1].op == 'agg' and any(y is raw('fld', amt, 'mag') for y in walk(new)):
                R.bad('register-data', where, 'a posting is counted as %s' % pp(new.a[1], 4), fx)
            else:
                R.unk('register-data', where, 'counted %s' % pp(new, 4))
            mag = raw('fld', amt, 'mag')
            lo, lop, hi, hop = interval(f, mag)
            if fdec(f, Eq(mag, Int(0))) == 0 and lo == 0:
                lop = True
            if fdec(f, Eq(mag, Int(0))) == 0 and hi == 0:
                hop = True
            zero = lo == 0 == hi
            only = all(k.op == 'lt' and (k.a[0] is mag and num(k.a[1]) is not None or k.a[1] is mag and num(k.a[0]) is not None) or k is mag for k, z in f if isinstance(k, T) and any(y is mag for y in walk(k)))
            # may be, must be above (below) zero
            pos = 1 if lo is not None and (lo > 0 or lo == 0 and lop) else 0 if hi is not None and hi <= 0 else None
            ng = 1 if hi is not None and (hi < 0 or hi == 0 and hop) else 0 if lo is not None and lo >= 0 else None
            for ks, want, txt in ((to, pos, 'to'), (fr, ng, 'from')):
                if not ks:
                    continue
                k = list(ks)[0]
                ph = raw('phi', lp.depth, k)
                w = u.get(k, ph)
                put = any(y is acct for y in walk(w)) and w is not ph
                if want is None and only:
                    if put or w is ph:
                        R.bad('register-data', where, 'an account money goes %s is %s whatever its amount within %s to %s' % (txt, 'shown' if put else 'not shown', lo, hi), fx)
                    else:
                        R.unk('register-data', where, 'sign not decided')
                elif want is None:
                    if put:
                        R.bad('register-data', where, 'an account is shown where money goes %s whatever its amount' % txt, fx) if not any(isinstance(q, T) and any(y is mag for y in walk(q)) for q, z in f) else R.unk('register-data', where, 'sign not decided')
                    else:
                        R.unk('register-data', where, 'sign not decided')
                elif w is ph and want and any(isinstance(q, T) and (any(y is ph for y in walk(q)) or any(any(y is ph for y in walk(loop_of(l).it)) for l in loops_in(q) if loop_of(l).it is not None)) for q, z in f):
                    # it may be there already
                    R.unk('register-data', where, 'an account is not added in a case: %s' % fx)
                elif w is ph:
                    R.check(not want, 'register-data', where, 'an account money goes %s is shown' % txt, fx)
                elif put:
                    R.check(bool(want), 'register-data', where, 'only an account money goes %s is shown there' % txt, fx)
                else:
                    R.unk('register-data', where, 'accounts become %s' % pp(w, 4))

    def register():
        n, ARD = 'ledger::register::Register::display', 'entry::Entry::as_register_data'
        ana.fn(ARD)
        ana.need_fields('entry::EntryRegisterData', 'date', 'status', 'description', 'account_flow', 'amounts')
        ana.need_fields('amount::AmountPool', 'pool')
        s = ana.summ(n, models=pools.models(), key='c31')
        done = 0
        for st, v in s.outs:
            if not is_ok(v):
                continue
            fx = facts_str(st)
            out = output(st.ev)
            ls = [x for k, x in out if k == 'loop' and prints(x)]
            if len(ls) != 1:
                if not ls and not any(k == 'text' for k, x in out):
                    nothing = [k for k in st.facts if isinstance(k, T) and k.op == 'len' and fdec(st.facts.items(), Eq(k, Int(0))) == 1]
                    (R.unk if nothing else R.bad if tame([(k, z) for k, z in st.facts.items() if isinstance(k, T) and k.op != 'found']) else R.unk)('register', s.where, 'no register is printed: %s' % fx)
                else:
                    R.unk('register', s.where, 'loops not recognised')
                continue
            done += 1
            lp = LP(ls[0])
            where = '%s:%s' % lp.where
            if short(st, ls[0]) or leaves_out(lp.it):
                R.bad('register', where, 'the register is cut short', fx)
                continue
            if lp.it is None or lp.it.op != 'it':
                R.unk('register', where, 'loop over %s' % pp(lp.it, 4))
                continue
            lst = lp.it.a[0]
            if lst.op in ('sorted', 'reversed'):
                R.unk('register', where, 'loop over %s' % pp(lst, 3))
                continue
            el = E.elem_of(lst, raw('k', lp.depth))
            lines_(lp, el, where)
        if not done:
            R.unk('register', s.where, 'no register printed')

    def lines_(lp, el, where):
        def F(t, *fs):
            for f in fs:
                t = raw('fld', t, f)
            return t
        am, pool = F(el, 'amounts'), F(el, 'amounts', 'pool')
        exp = [('date', (F(el, 'date'),)), ('status', (F(el, 'status'), raw('chr', F(el, 'status')))), ('description', (F(el, 'description'),)),
               ('account money comes from', (F(el, 'account_flow', '0'),)), ('account money goes to', (F(el, 'account_flow', '1'),))]
        empty_ = lambda f: fdec(f, Eq(raw('len', pool), Int(0))) == 1 or fdec(f, Lt(Int(0), raw('len', pool))) == 0
        # the running total
        keys = [k for k, i in lp.inits if i.op == 'agg' and 'AmountPool' in str(i.a[0]) or i.op == 'vec']
        for f, u, ev in lp.parts:
            if ended(f):
                continue
            u = dict(u)
            fx = fstr(f)
            out = output(ev)
            if not any(k == 'text' for k, x in out) and not any(k == 'loop' and prints(x) for k, x in out):
                if empty_(f):
                    R.ok('register', where, 'an entry without an amount has no line')
                else:
                    (R.bad if tame(f) else R.unk)('register', where, 'an entry has no line: %s' % fx)
                continue
            tx = [x for k, x in out if k == 'text']
            # the prelude
            pos = []
            within = [loop_of(x) if not isinstance(x, Built) else x for k, x in out if k == 'loop' and prints(x)]
            for il in within:
                for f2, u2, ev2 in il.parts:
                    if fdec(f2, Eq(raw('k', il.depth), Int(0))) == 1:
                        tx = tx + [y for k, y in output(ev2) if k == 'text']
            deep = [y for il in within for f2, u2, ev2 in il.parts for k, y in output(ev2) if k == 'text'] + [(i_, False) for il in within for k_, i_ in il.inits]
            for nm, ts in exp:
                i = [j for j, (x, c) in enumerate(tx) if x in ts or x.op == 'show' and x.a[1] in ts]
                if not i:
                    if any(any(y in ts for y in walk(x)) for x, c in tx + deep if not rep(x)):
                        R.unk('register', where, 'the %s is shown in a form not recognised' % nm)
                    elif all(lit(x) or rep(x) or x.op in ('show', 'fld', 'chr') for x, c in tx):
                        R.bad('register', where, 'the %s is not shown' % nm, fx)
                    else:
                        R.unk('register', where, 'the %s is not found' % nm)
                    break
                if any(tx[j][1] for j in i):
                    R.bad('register', where, 'the %s is cut off' % nm, fx)
                    break
                pos.append(i[0])
            else:
                if pos[3] > pos[4]:
                    R.bad('register', where, 'money is shown going the wrong way', fx)
                else:
                    R.ok('register', where, 'a line shows date, status, description and accounts')
            # the amounts
            tx = [x for k, x in out if k == 'text']
            first = amounts(tx, raw('elem', pool, Int(0)), u, keys, lp, am, where, fx)
            ils = [x for k, x in out if k == 'loop' and prints(x)]
            start = None
            for x in ils:
                il = LP(x)
                if il.it is not None and il.it.op == 'it' and il.it.a[0].op == 'take' and num(il.it.a[0].a[1]) is not None and any(y is pool for y in walk(il.it)):
                    R.bad('register', where, 'not every amount of an entry is shown: %s' % pp(il.it, 4), fx)
                    start = -1
                    continue
                iit = il.it.a[0] if il.it is not None and il.it.op in ('ienum', 'ifilter') else il.it
                if iit is None or iit.op != 'it' or iit.a[0] is not pool:
                    R.unk('register', where, 'amounts in a loop over %s' % pp(il.it, 4))
                    start = -1
                    continue
                if fdec(f, raw('found', x)) == 1:
                    R.bad('register', where, 'the amounts of an entry are cut short', fx)
                start = num(T_(iit.a[1]))
                e2 = E.elem_of(pool if start == 0 else raw('from', pool, iit.a[1]), raw('k', il.depth))
                for f2, u2, ev2 in il.parts:
                    if ended(f2):
                        continue
                    t2 = [y for k, y in output(ev2) if k == 'text']
                    if not t2:
                        (R.bad if tame([(subst(k, lambda t: Sym('amounts') if t is pool else None, {}) if isinstance(k, T) else k, z) for k, z in f2]) else R.unk)('register', where, 'an amount is not shown: %s' % fstr(f2))
                        continue
                    amounts(t2, e2, u, keys, lp, am, where, fstr(f2), must=True)
            if start is None:
                if first and fdec(f, Eq(raw('len', pool), Int(1))) != 1 and fdec(f, Lt(Int(1), raw('len', pool))) != 0:
                    R.bad('register', where, 'only the first amount of an entry is shown', fx)
                elif not first:
                    R.unk('register', where, 'amounts not recognised')
            elif start == 1 and not first:
                R.bad('register', where, 'the first amount of an entry is not shown', fx) if not any(any(y is pool for y in walk(x)) for x, c in tx) else R.unk('register', where, 'first amount not recognised')
            elif start == 0 and first:
                R.bad('register', where, 'the first amount of an entry is shown twice', fx)
            elif start not in (0, 1, -1):
                R.bad('register', where, 'not every amount of an entry is shown', fx)

    def amounts(tx, e, u, keys, lp, am, where, fx, must=False):
        i = [j for j, (x, c) in enumerate(tx) if x.op == 'show' and x.a[1] is e]
        if not i:
            if must:
                R.unk('register', where, 'amount shown in a form not recognised')
            return False
        sy = raw('fld', e, 'symbol')
        tot = [x.a[1] for x, c in tx[i[0] + 1:] if x.op == 'show' and 'amount::Amount' in str(x.a[0])]
        if len(tot) != 1:
            (R.bad if not tot and all(lit(x) for x, c in tx[i[0] + 1:]) else R.unk)('register', where, 'the running total is not shown beside an amount')
            return True
        t = tot[0]
        m = next((y for y in t.a[2:] if isinstance(y, T) and y.op == 'pmag'), None) if t.op == 'agg' else None
        if m is None:
            R.unk('register', where, 'running total %s' % pp(t, 4))
            return True
        if m.a[1] is not sy:
            R.bad('register', where, 'the running total is shown in another currency: %s' % pp(m.a[1], 4), fx)
            return True
        q = m.a[0]
        phis = {raw('phi', lp.depth, k): k for k in keys}
        if q in phis:
            R.bad('register', where, 'the running total lacks the amount of its own line', fx)
        elif q.op == 'pmerge' and q.a[0] in phis and q.a[1] is am:
            k = phis[q.a[0]]
            R.check(u.get(k) is q, 'register', where, 'the running total has every line up to its own, each once', fx)
        elif q is am or q.op == 'pmerge' and q.a[1] is am and q.a[0].op == 'agg' and q.a[0].a[2].op == 'vec' and not q.a[0].a[2].a:
            R.bad('register', where, 'the running total is that of one line', fx)
        elif q.op == 'pmerge' and q.a[0].op == 'pmerge' and q.a[0].a[0] in phis:
            R.bad('register', where, 'the running total counts a line twice', fx)
        else:
            R.unk('register', where, 'running total %s' % pp(q, 4))
        return True

    R.section('balances', balances)
    R.section('envelopes', accounts)
    R.section('account', account)
    R.section('envelope', envelope)
    R.section('register-data', data)
    R.section('register', register)
