"""An envelope is what its definition says.

Partitions of the reader of an envelope: kind, name, account, schedule and start
come from their own words of the header; every line below it sets the property
it names, to the value written, and no other; a new envelope holds nothing."""
from ..base import *
from ..acc import base_it, leaves_out, cut_short
from ..rulefile import strip_trim, trimmed, blankness
from .c20 import appn
from . import c22

RC, FP, AP = 'utils::remove_comments', 'envelope::Frequency::parse', 'amount::Amount::parse'
KINDS = {'expense': 'Expense', 'goal': 'Goal'}
FUND = {'manual': 'Manual', 'aggressive': 'Aggressive', 'conservative': 'Conservative'}
PROPS = ('for', 'amount', 'funding')


def T_(x):
    return x if isinstance(x, T) else Int(x)


def passes_over(it):
    """lines below the header are left out by their position"""
    if it.op in ('it', 'itm') and it.a[0].op == 'lines' and num(T_(it.a[1])) == 1:
        return False
    inner = [x for x in it.a if isinstance(x, T) and x.op in E.ITER]
    if it.op not in ('iskip', 'itake', 'istep', 'it', 'itm') and inner:
        return any(passes_over(x) for x in inner)
    return leaves_out(it)


def name(x):
    return x.a[0] if isinstance(x, T) and x.op == 'str' else x


def run(ana, R):
    p0, p1, p2, p3 = (Sym('P%d' % i) for i in range(4))
    EF = ana.adt('envelope::Envelope')['variants'][0]['fields']
    FM = [v['name'] for v in ana.adt('envelope::FundingMethod')['variants']]
    ET = [v['name'] for v in ana.adt('envelope::EnvelopeType')['variants']]
    FQ = [v['name'] for v in ana.adt('envelope::Frequency')['variants']]
    AF = ana.adt('amount::Amount')['variants'][0]['fields']
    EN = 'envelope::Envelope::parse'

    def variant(t, names):
        if t.op == 'agg' and isinstance(t.a[1], int) and t.a[1] < len(names):
            return names[t.a[1]]
        return None

    def clean(t):
        """the text behind trimming and comment removal"""
        while True:
            u = strip_trim(t)
            if u.op == 'app' and u.a[0] == RC:
                u = u.a[1]
            if u is t:
                return t
            t = u

    def header_line(t):
        t = clean(t)
        return t.op == 'elem' and t.a[0].op == 'lines' and t.a[1] is Int(0) and strip_trim(t.a[0].a[0]) is p0

    def header_word(t):
        """k when t is the k-th word of the header line"""
        if t.op == 'elem' and t.a[0].op == 'words' and header_line(t.a[0].a[0]):
            return num(t.a[1])
        return None

    def word0(facts, isline):
        for k, v in facts:
            if isinstance(k, T) and k.op == 'elem' and k.a[0].op == 'words' and k.a[1] is Int(0) and isline(k.a[0].a[0]):
                vs = v[1] if v[0] != '=' else (v[1],)
                return v[0], set(name(x) for x in vs)
        return None

    nodate_only = []

    def definition():
        for x in (FP, AP, RC):
            ana.fn(x)
        ana.need_fields('envelope::Envelope', 'name', 'amount', 'envelope_type', 'auto_accounts', 'freq', 'funding', 'starting_date', 'next_amount', 'now_amount', 'account')
        s = ana.summ(EN, inline=(EN,))
        bodies = {}
        n = 0
        seen = [k for st, v in s.outs for q in st.facts if isinstance(q, T) for k in walk(q) if k.op == 'app' and any(x.op == 'str' and 'no date' in x.a[0] for x in k.a[1:] if isinstance(x, T))]
        # the phrase is looked for in the header, and in no other way
        nodate_only[:] = [1] if seen and all(appn(k, 'contains') and k.a[2] is Str('no date') and (header_line(k.a[1]) or clean(k.a[1]).op == 'sub') for k in seen) else []
        for st, v in s.outs:
            if not is_ok(v):
                continue
            e = v.a[2]
            fx = facts_str(st)
            if e.op != 'agg':
                R.unk('header', s.where, 'envelope %s' % pp(e, 3))
                continue
            n += 1
            e = dict(zip(EF, e.a[2:]))
            # name and account
            k = header_word(e['name'])
            if k is not None:
                R.check(k == 1, 'header', s.where, 'the name of an envelope is the second word of its header', fx)
            else:
                t = e['name']
                W = t.a[0] if t.op in ('elem', 'lastof') and t.a[0].op == 'words' and header_line(t.a[0].a[0]) else None
                last = W is not None and (t.op == 'lastof' or t.a[1] is sub(raw('len', W), Int(1)))
                (bad if appn(t, 'to_lowercase', 'to_uppercase') or t is p1 or last and E.decide(st, Eq(raw('len', W), Int(2))) != 1 else unk)('header', s.where, 'the name of an envelope becomes %s' % pp(e['name'], 4), fx)
            if e['account'] is p1:
                R.ok('header', s.where, 'an envelope belongs to the account it is defined in')
            else:
                (bad if e['account'].op == 'str' or header_word(e['account']) is not None or appn(e['account'], 'to_lowercase', 'to_uppercase', 'trim_start_matches', 'trim_end_matches', 'trim_matches') and e['account'].a[1] is p1 else unk)('header', s.where, 'the account of an envelope becomes %s' % pp(e['account'], 4), fx)
            # kind
            w = word0(st.facts.items(), header_line)
            ty = variant(e['envelope_type'], ET)
            if w and w[0] == '=' and ty:
                w_ = list(w[1])[0]
                if w_ in KINDS:
                    R.check(KINDS[w_] == ty, 'header', s.where, 'the first word of a header is the kind of envelope (`%s` is %s)' % (w_, ty), fx)
                else:
                    R.bad('header', s.where, 'an envelope of the unknown kind `%s` is accepted' % w_, fx)
            elif w and w[0] == '!' and ty and KINDS.keys() <= w[1]:
                R.bad('header', s.where, 'an envelope of an unknown kind is accepted', fx)
            elif w and w[0] == '!' and ty and any(KINDS[x] != ty for x in set(KINDS) - w[1]):
                R.bad('header', s.where, 'an envelope of any other kind is taken for %s' % ty, fx)
            else:
                R.unk('header', s.where, 'kind of envelope: %s' % fx)
            start(st, e, s, fx)
            # what it starts with
            for f in ('next_amount', 'now_amount'):
                t = e[f]
                m = dict(zip(AF, t.a[2:])).get('mag') if t.op == 'agg' else None
                if m is not None and num(m) is not None:
                    R.check(num(m) == 0, 'header', s.where, 'a new envelope holds nothing', fx)
                else:
                    R.unk('header', s.where, 'a new envelope holds %s' % pp(t, 4))
            # the body
            ks = {}
            for f in ('amount', 'auto_accounts', 'funding'):
                ks[f] = e[f]
            t = e['amount']
            if t.op == 'agg' and len(t.a[2:]) == len(AF):
                z = dict(zip(AF, t.a[2:]))
                del ks['amount']
                ks['amount.mag'], ks['amount.symbol'] = z['mag'], z['symbol']
            for f in ('next_amount', 'now_amount'):
                t = e[f]
                ks[f] = dict(zip(AF, t.a[2:]))['symbol'] if t.op == 'agg' else t
            lts = set(t.a[0] for t in ks.values() if t.op == 'loopval')
            if len(lts) != 1:
                R.unk('body', s.where, 'body not recognised in a case')
                continue
            lt = list(lts)[0]
            if cut_short(st, lt):
                R.bad('body', s.where, 'not every line of an envelope is read', fx)
                continue
            if lt not in bodies:
                bodies[lt] = 1
                body(lt, ks, s)
        if not n:
            R.unk('header', s.where, 'no envelope accepted')

    def bad(r, w, m, fx):
        R.bad(r, w, m, fx)

    def unk(r, w, m, fx):
        R.unk(r, w, m)

    def start(st, e, s, fx):
        """starting date and schedule"""
        sd, fq = e['starting_date'], e['freq']
        finds = [y for k in st.facts if isinstance(k, T) for y in walk(k) if appn(y, 'find', 'rfind') and y.a[2].op == 'str' and y.a[2].a[0].strip() == 'starting']
        found = [E.decide(st, Eq(discr(y), Int(1))) for y in finds]
        what = None
        if sd is NONE:
            if 1 in found:
                R.bad('header', s.where, 'a starting date is not read', fx)
            elif 0 in found:
                R.ok('header', s.where, 'no starting date, where none is given')
            else:
                R.unk('header', s.where, 'starting date: %s' % fx)
        else:
            what = payload(sd)
            if what.op == 'fld' and what.a[1] == 'Ok.0' and appn(what.a[0], 'parse_from_str'):
                t = clean(what.a[0].a[1])
                ok = t.op == 'sub' and header_line(t.a[0]) and t.a[1].op == 'lin' and any(y in finds for y in walk(t.a[1]))
                if ok:
                    y = [y for y in walk(t.a[1]) if y in finds][0]
                    d = num(sub(t.a[1], payload(y)))
                    L = len(y.a[2].a[0])
                    if d is not None:
                        R.check(d == L or 0 < d < L and not y.a[2].a[0][int(d):].strip() or False, 'header', s.where, 'the starting date is what stands behind `starting`', fx)
                    else:
                        R.unk('header', s.where, 'starting date read from %s' % pp(t, 4))
                else:
                    R.unk('header', s.where, 'starting date read from %s' % pp(t, 4))
            else:
                z = what
                while z.op == 'fld' or appn(z, 'succ_opt', 'pred_opt', 'succ', 'pred', 'add', 'sub', 'with_day', 'with_month', 'with_year', 'checked_add_signed', 'checked_sub_signed'):
                    if z.op == 'fld' and appn(z.a[0], 'parse_from_str'):
                        break
                    z = z.a[0] if z.op == 'fld' else z.a[1]
                (bad if z is not what and z.op == 'fld' and header_line(clean(z.a[0].a[1]).a[0] if clean(z.a[0].a[1]).op == 'sub' else z) else unk)('header', s.where, 'starting date %s' % pp(what, 4), fx)
        v = variant(fq, FQ)
        nodate = [E.decide(st, k) for k in st.facts if isinstance(k, T) and appn(k, 'contains') and k.a[2] is Str('no date')]
        if v == 'Never':
            if 1 in nodate:
                R.ok('header', s.where, '`no date` is never due')
            elif 0 in nodate:
                R.bad('header', s.where, 'an envelope with a due date is never due', fx)
            else:
                R.unk('header', s.where, 'never due: %s' % fx)
            return
        if v is not None:
            R.unk('header', s.where, 'due %s' % v)
            return
        if not (fq.op == 'fld' and fq.a[1] == 'Ok.0' and fq.a[0].op == 'app' and fq.a[0].a[0] == FP):
            R.unk('header', s.where, 'due %s' % pp(fq, 4))
            return
        if 1 in nodate:
            R.bad('header', s.where, '`no date` is not looked at', fx)
            return
        if 0 not in nodate and nodate_only:
            R.bad('header', s.where, '`no date` is not looked at', fx)
            return
        c = fq.a[0]
        t = clean(c.a[1])
        if c.a[3] is not sd:
            if c.a[3] is NONE:
                R.bad('header', s.where, 'the schedule does not know the starting date', fx)
            else:
                R.unk('header', s.where, 'schedule starting %s' % pp(c.a[3], 4))
        if not (t.op == 'sub' and t.a[1].op == 'lin'):
            R.unk('header', s.where, 'schedule read from %s' % pp(t, 4))
            return
        src = clean(t.a[0])
        marks = [y for y in walk(t.a[1]) if appn(y, 'find', 'rfind') and y.a[2].op == 'str' and y.a[2].a[0].strip() in ('due', 'by')]
        if len(marks) != 1:
            R.unk('header', s.where, 'schedule read from %s' % pp(t, 4))
            return
        y = marks[0]
        d = num(sub(t.a[1], payload(y)))
        d = None if d is None else int(d)
        if d is None:
            R.unk('header', s.where, 'schedule read from %s' % pp(t, 4))
        elif y.a[2].a[0][d:].strip() or d > len(y.a[2].a[0]):
            R.bad('header', s.where, 'the schedule is read from %d characters behind `%s`' % (d, y.a[2].a[0]), fx)
        else:
            R.ok('header', s.where, 'the schedule is what stands behind `due` or `by`')
        if appn(y, 'find') and header_line(clean(y.a[1])):
            R.bad('header', s.where, 'the schedule is read from behind the first `%s`, which may be the name of the envelope' % y.a[2].a[0].strip(), fx)
        if y.a[2].a[0].strip() == 'due' and not any(E.decide(st, Eq(discr(k), Int(0))) == 1 for q in st.facts if isinstance(q, T) for k in walk(q) if appn(k, 'find', 'rfind') and k.a[2].op == 'str' and k.a[2].a[0].strip() == 'by'):
            bys = [k for q in st.facts if isinstance(q, T) for k in walk(q) if appn(k, 'find', 'rfind', 'contains') and k.a[2].op == 'str' and 'by' in k.a[2].a[0]]
            if not bys and t.op == 'sub' and not appn(c.a[1], 'trim_start_matches'):
                R.bad('header', s.where, '`by` behind `due` is taken for part of the schedule', fx)
        # the start is no part of it
        if what is not None:
            b = src
            if b.op == 'sub' and header_line(b.a[0]) and any(z in finds for z in walk(b.a[2])):
                R.ok('header', s.where, 'the schedule ends where the starting date begins')
            elif t.a[2].op in ('lin', 'fld') and any(z in finds for z in walk(t.a[2])):
                R.ok('header', s.where, 'the schedule ends where the starting date begins')
            elif header_line(src) and t.a[2].op in ('agg', 'tuple'):
                R.bad('header', s.where, 'the schedule is read with the starting date', fx)
            else:
                R.unk('header', s.where, 'schedule read from %s' % pp(t, 4))

    def lines(l, where):
        """the lines read are those below the header, all of them"""
        while l.op == 'lines' and appn(strip_trim(l.a[0]), 'join') and strip_trim(l.a[0]).a[2] is Str('\n'):
            l = strip_trim(l.a[0]).a[1]
        if l.op == 'from' and l.a[0].op == 'lines' and strip_trim(l.a[0].a[0]) is p0:
            k = l.a[1] if not isinstance(l.a[1], T) else num(l.a[1])
            if k is None:
                R.unk('body', where, 'lines %s' % pp(l, 4))
            else:
                R.check(k == 1, 'body', where, 'the lines read are those below the header', ())
        elif l.op == 'lines' and strip_trim(l.a[0]) is p0:
            R.bad('body', where, 'the header is read as a property')
        elif l.op == 'loopval' and comp(l) is not None:
            c = comp(l)
            if passes_over(c.lp.it):
                R.bad('body', where, 'not every line of an envelope is read: %s' % pp(c.lp.it, 4))
            elif c.lp.it is not None and c.lp.it.op == 'itakew':
                R.bad('body', where, 'the lines of an envelope are read up to a certain one only: %s' % fstr(c.rows[0][0] if c.rows else ()))
            else:
                R.unk('body', where, 'lines %s' % pp(c.lp.it, 4))
        else:
            R.unk('body', where, 'lines %s' % pp(l, 4))

    # ------------------------------------------------------------ the lines below the header
    def body(lt, ks, s):
        lp = loop_of(lt)
        where = '%s:%s' % lp.where
        key = {f: t.a[1] for f, t in ks.items() if t.op == 'loopval' and t.a[0] is lt}
        for f in ('amount', 'amount.mag', 'amount.symbol', 'auto_accounts', 'funding'):
            if f not in key and f in ks:
                (R.bad if ks[f].op in ('agg', 'emptymap', 'int', 'num', 'none') or ks[f] is NONE else R.unk)('body', where, 'no line sets the %s of an envelope' % f)
        for f in ('next_amount', 'now_amount'):
            if f not in key:
                if ks[f] is NONE:
                    R.bad('body', where, 'what an envelope holds is not in its currency (%s)' % f)
                else:
                    R.unk('body', where, '%s %s' % (f, pp(ks[f], 3)))
        ini = dict(lp.inits)
        for f, k in key.items():
            i = ini.get(k)
            if i is None:
                continue
            if f == 'funding':
                fv = variant(i, FM)
                (R.check(fv == 'Manual', 'body', where, 'without a funding line nothing is moved', ()) if fv else R.unk('body', where, 'funding starts as %s' % pp(i, 3)))
            elif f == 'auto_accounts':
                (R.ok if i.op in ('emptymap', 'vec') and not i.a else R.unk)('body', where, 'linked accounts start empty')
        lst, st0, exact = base_it(lp.it)
        if passes_over(lp.it):
            R.bad('body', where, 'not every line of an envelope is read: %s' % pp(lp.it, 4))
        if lst is None:
            R.unk('body', where, 'lines %s' % pp(lp.it, 3))
            return
        src = lst if st0 == 0 else raw('from', lst, st0)
        lines(src, where)
        el = E.elem_of(src, raw('k', lp.depth))

        def isline(t):
            return clean(t) is el or clean(t) is clean(el)

        def value(t):
            """True: all that stands behind the first word; 'first': the word behind it; False: certainly something else; None"""
            t = strip_trim(t)
            if t.op == 'sub' and isline(t.a[0]) and trimmed(t.a[0]) in ('trim', 'trim_start') and t.a[2].op in ('agg', 'tuple'):
                i = t.a[1]
                d = 0
                fs_ = [y for y in walk(i) if appn(y, 'find', 'rfind')]
                if len(fs_) == 1:
                    d = num(sub(i, payload(fs_[0])))
                    if d in (0, 1) and appn(fs_[0], 'find'):
                        pat = fs_[0].a[2]
                        # a property may be followed by any white space
                        return False if pat.op == 'str' or num(pat) is not None else True
                    if appn(fs_[0], 'rfind'):
                        return False
                return None
            if appn(t, 'join') or t.op in ('join', 'strof'):
                x = t.a[1] if t.op == 'app' else t.a[0]
                if x.op == 'from' and x.a[0].op == 'words' and isline(x.a[0].a[0]):
                    j = x.a[1] if not isinstance(x.a[1], T) else num(x.a[1])
                    return True if j == 1 else False if j is not None else None
                return None
            if t.op == 'elem' and t.a[0].op == 'words' and isline(t.a[0].a[0]):
                j = num(t.a[1])
                return 'first' if j == 1 else False if j is not None else None
            if appn(t, 'to_lowercase', 'to_uppercase'):
                return False if value(t.a[1]) else None
            if t.op == 'lastof' and any(y.op == 'words' and isline(y.a[0]) for y in walk(t)):
                return False
            return None

        def show(t):
            return pp(t, 4)
        for f, u, ev in lp.parts:
            u = dict(u)
            new = {g: u.get(k, raw('phi', lp.depth, k)) for g, k in key.items()}
            old = {g: raw('phi', lp.depth, k) for g, k in key.items()}
            changed = sorted(g for g in new if new[g] is not old[g])
            other = [k for k, x in u.items() if k not in key.values() and x is not raw('phi', lp.depth, k)]
            fx = fstr(f)
            w = word0(f, isline)
            W = None
            for k, z in f:
                if isinstance(k, T):
                    for y in walk(k):
                        if y.op == 'words' and isline(y.a[0]):
                            W = y
            if W is not None and fdec(f, Eq(raw('len', W), Int(0))) == 1 or W is not None and fdec(f, Lt(Int(0), raw('len', W))) == 0 or blankness(f, el) == 1:
                R.check(not changed, 'body', where, 'a blank line sets nothing', fx)
                continue
            if W is not None and fdec(f, Eq(raw('len', W), Int(1))) == 1 or W is not None and fdec(f, Lt(Int(1), raw('len', W))) == 0:
                # one word: no white space in it
                if any(isinstance(k, T) and k.op == 'discr' and appn(k.a[0], 'find') and isline(k.a[0].a[1]) and trimmed(k.a[0].a[1]) == 'trim' and z == ('=', 1) for k, z in f):
                    continue
                if not changed and (w is None or w[0] == '=' and w[1] <= set(PROPS)):
                    R.bad('body', where, 'a property without a value is passed over', fx)
                else:
                    R.unk('body', where, 'a property without a value: %s' % fx)
                continue
            if w is None:
                R.unk('body', where, 'property not recognised: %s' % fx)
                continue
            if w[0] == '!':
                if set(PROPS) <= w[1]:
                    if not changed and not other:
                        R.bad('body', where, 'an unknown property is passed over', fx)
                    else:
                        R.bad('body', where, 'an unknown property sets the %s' % ', '.join(changed), fx)
                else:
                    left = set(PROPS) - w[1]
                    R.unk('body', where, 'property: %s' % fx)
                continue
            if w[0] != '=':
                R.unk('body', where, 'property: %s' % fx)
                continue
            kw = list(w[1])[0]
            if kw not in PROPS:
                R.unk('body', where, 'property `%s`' % kw)
                continue
            exp = {'for': ['auto_accounts'], 'amount': ['amount', 'amount.mag', 'amount.symbol', 'next_amount', 'now_amount'], 'funding': ['funding']}[kw]
            exp = sorted(g for g in exp if g in key)
            wrong = [g for g in changed if g not in exp]
            if wrong:
                R.bad('body', where, '`%s` sets the %s' % (kw, ', '.join(wrong)), fx)
                continue
            if kw == 'for':
                t = new['auto_accounts']
                if t is old['auto_accounts']:
                    if any(isinstance(k, T) and k.op in ('has', 'found') for k, z in f):
                        R.unk('body', where, '`for` adds nothing in a case: %s' % fx)
                    else:
                        R.bad('body', where, '`for` adds no account', fx)
                    continue
                if t.op == 'mput' and t.a[0] is old['auto_accounts']:
                    x = t.a[1]
                elif t.op == 'push' and t.a[0] is old['auto_accounts']:
                    x = t.a[1]
                elif t.op == 'mput' and t.a[0].op == 'emptymap':
                    R.bad('body', where, '`for` drops the accounts before it', fx)
                    continue
                else:
                    R.unk('body', where, 'linked accounts become %s' % show(t))
                    continue
                r = value(x)
                if r is False or r is None and any(altered(x, y) for y in walk(x) if y.op in ('sub', 'elem', 'app') and y is not x and value(y)):
                    R.bad('body', where, '`for` adds %s' % show(x), fx)
                elif r is None:
                    R.unk('body', where, '`for` adds %s' % show(x))
                else:
                    if r is True and trimmed(x) not in ('trim',) and not (x.op in ('join', 'strof') or appn(x, 'join')) and not x.op == 'elem':
                        R.bad('body', where, '`for` adds an account with white space around it', fx) if trimmed(x) is None and strip_trim(x) is x and x.op == 'sub' and appn([y for y in walk(x.a[1]) if appn(y, 'find')][0], 'find') and num(sub(x.a[1], payload([y for y in walk(x.a[1]) if appn(y, 'find')][0]))) == 0 else R.unk('body', where, '`for` adds %s' % show(x))
                        continue
                    about = [k for k, z in f if isinstance(k, T) and k.op in ('lt', 'eq', 'len', 'discr', 'app') and any(y.op == 'words' and (isline(y.a[0]) or value(y.a[0]) is True) for y in walk(k)) and k.op != 'elem']
                    several = [k for k in about if k not in (Lt(Int(0), raw('len', W)), Lt(Int(1), raw('len', W)), raw('len', W))]
                    tests = [k for k, z in f if isinstance(k, T) and appn(k, 'contains') or isinstance(k, T) and k.op == 'discr' and appn(k.a[0], 'find') and not isline(k.a[0].a[1])]
                    V = [raw('len', y) for k in several for y in walk(k) if y.op == 'words']
                    one = [(q, 1 if value(q.a[0].a[0]) is True else 2) for q in V]
                    if any(fdec(f, Eq(q, Int(j))) == 0 for q, j in one):
                        R.bad('body', where, '`for` with several words is accepted', fx)
                    elif several or tests:
                        R.ok('body', where, '`for` links the account it names')
                    else:
                        R.bad('body', where, '`for` with several words is not an error', fx)
            elif kw == 'amount':
                if 'amount' in new:
                    t = new['amount']
                elif 'amount.mag' in new and 'amount.symbol' in new:
                    m, y = new['amount.mag'], new['amount.symbol']
                    t = m.a[0] if m.op == 'fld' and m.a[1] == 'mag' and y is raw('fld', m.a[0], 'symbol') else raw('agg', 'amount::Amount', 0, *[dict(mag=m, symbol=y)[q] for q in AF])
                    if m is old['amount.mag'] and y is old['amount.symbol']:
                        R.bad('body', where, '`amount` does not set the amount', fx)
                        continue
                else:
                    R.unk('body', where, 'amount not recognised')
                    continue
                if t.op == 'fld' and t.a[1] == 'Ok.0' and t.a[0].op == 'app' and t.a[0].a[0] == AP:
                    x = t.a[0].a[1]
                    r = value(x)
                    if r is True:
                        R.ok('body', where, '`amount` sets the amount written')
                    elif r is None:
                        R.unk('body', where, '`amount` is read from %s' % show(x))
                    else:
                        R.bad('body', where, '`amount` is read from %s' % show(x), fx)
                    if t.a[0].a[2] is not p2:
                        R.unk('body', where, 'decimal symbol %s' % show(t.a[0].a[2]))
                elif t is old.get('amount'):
                    R.bad('body', where, '`amount` does not set the amount', fx)
                    continue
                else:
                    z = dict(zip(AF, t.a[2:])) if t.op == 'agg' else None
                    if z and all(y.op in ('lin', 'abs', 'neg', 'fld', 'app', 'int', 'num', 'mul') for y in (z['mag'],)) and z['mag'].op in ('lin', 'abs', 'int', 'num', 'mul'):
                        R.bad('body', where, '`amount` sets the amount to %s' % show(z['mag']), fx)
                    else:
                        R.unk('body', where, '`amount` sets %s' % show(t))
                    continue
                for g in ('next_amount', 'now_amount'):
                    if g in key:
                        if new[g] is raw('fld', t, 'symbol'):
                            R.ok('body', where, 'what an envelope holds is in its currency')
                        elif new[g] is old[g] or new[g] is NONE:
                            R.bad('body', where, 'the %s of an envelope is not in its currency' % g, fx)
                        else:
                            R.unk('body', where, 'currency %s' % show(new[g]))
            else:
                t = variant(new['funding'], FM)
                txt = None
                for k, z in f:
                    if isinstance(k, T) and value(k) is not None and k.op != 'phi' and (k is not None):
                        if value(k) in (True, 'first') and trimmed(k) is not None or k.op in ('elem', 'join') or appn(k, 'join'):
                            if k.op == 'elem' and k.a[1] is Int(0):
                                continue
                            txt = (z[0], set(name(q) for q in (z[1] if z[0] != '=' else (z[1],))), value(k))
                if new['funding'] is old['funding']:
                    if txt and txt[0] == '=':
                        # set to what it was
                        R.unk('body', where, '`funding` sets nothing in a case: %s' % fx) if list(txt[1])[0] == 'manual' else R.bad('body', where, '`funding %s` sets nothing' % list(txt[1])[0], fx)
                    elif txt and txt[0] == '!' and set(FUND) <= txt[1]:
                        R.bad('body', where, 'an unknown funding method is passed over', fx)
                    else:
                        R.unk('body', where, '`funding` sets nothing in a case: %s' % fx)
                elif t is None:
                    R.unk('body', where, '`funding` sets %s' % show(new['funding']))
                elif txt is None:
                    R.unk('body', where, '`funding` text not recognised: %s' % fx)
                elif txt[0] == '=':
                    m = list(txt[1])[0]
                    if m in FUND:
                        R.check(FUND[m] == t, 'body', where, '`funding %s` is %s' % (m, t), fx)
                    else:
                        R.bad('body', where, 'the unknown funding method `%s` is %s' % (m, t), fx)
                elif txt[0] == '!':
                    left = set(FUND) - txt[1]
                    if len(left) == 1 and FUND[list(left)[0]] == t or not left:
                        R.bad('body', where, 'any other funding method is taken for %s' % t, fx)
                    else:
                        R.unk('body', where, '`funding`: %s' % fx)
                else:
                    R.unk('body', where, '`funding`: %s' % fx)

    # ------------------------------------------------------------ schedules
    def schedule():
        s = ana.summ(FP, inline=(FP,))
        n = 0

        def pre(st, w):
            for k in st.facts:
                if isinstance(k, T) and k.op == 'discr' and appn(k.a[0], 'strip_prefix') and strip_trim(k.a[0].a[1]) is p0 and k.a[0].a[2].op == 'str' and k.a[0].a[2].a[0].strip() == w:
                    return E.decide(st, Eq(k, Int(1))), payload(k.a[0])
                if isinstance(k, T) and appn(k, 'starts_with') and strip_trim(k.a[1]) is p0 and k.a[2].op == 'str' and k.a[2].a[0].strip() == w:
                    return E.decide(st, k), None
            return None, None
        for st, v in s.outs:
            if not is_ok(v):
                continue
            fx = facts_str(st)
            q = v.a[2]
            kind = variant(q, FQ)
            if kind is None:
                R.unk('schedule', s.where, 'schedule %s' % pp(q, 4))
                continue
            n += 1
            (o, ot), (e, et) = pre(st, 'every other'), pre(st, 'every')
            if o is None and e is None:
                R.unk('schedule', s.where, 'schedule: %s' % fx)
                continue
            args = q.a[2:]
            what = ot if o == 1 else et
            # what has been made of the text
            wd = dy = None
            for k, z in st.facts.items():
                if isinstance(k, T) and k.op == 'discr' and k.a[0].op == 'app' and appn(k.a[0], 'from_str', 'parse'):
                    a = k.a[0]
                    x = strip_trim(a.a[-1])
                    okd = E.decide(st, Eq(k, Int(0)))
                    if x is what or appn(x, 'to_lowercase') and x.a[-1] is what:
                        if 'Weekday' in str(a.a[0]) or 'u32' not in str(a.a[0]) and not any(y.op == 'loopval' for y in walk(a)):
                            wd = (okd, raw('fld', a, 'Ok.0'))
                        else:
                            dy = (okd, raw('fld', a, 'Ok.0'))
                    elif any(y.op in ('loopval', 'strof', 'list') for y in walk(a)):
                        dy = (okd, raw('fld', a, 'Ok.0'))
            sd = payload(p2) if E.decide(st, Eq(discr(p2), Int(1))) == 1 else None
            if o == 1:
                if wd and wd[0] == 1:
                    exp = 'Biweekly'
                elif dy and dy[0] == 1:
                    exp = 'Bimonthly'
                else:
                    R.unk('schedule', s.where, '`every other`: %s' % fx)
                    continue
                if sd is None:
                    R.bad('schedule', s.where, '`every other` without a starting date is accepted', fx)
                    continue
                if kind != exp:
                    R.bad('schedule', s.where, '`every other` of that kind is %s and not %s' % (kind, exp), fx)
                    continue
                a = args[0]
                used = list(walk(a)) + [y for l in map(loop_of, loops_in(a)) for k, i in l.inits for y in walk(i)] + [y for l in map(loop_of, loops_in(a)) for f, u, ev in l.parts for k, i in f if isinstance(k, T) for y in walk(k)]
                w = wd if exp == 'Biweekly' else dy
                if a is sd:
                    if E.decide(st, Eq(fcall('weekday', sd), w[1])) == 1 or any(isinstance(k, T) and any(y is w[1] for y in walk(k)) and any(y is sd for y in walk(k)) for k in st.facts):
                        R.ok('schedule', s.where, 'the start is on the day named')
                    else:
                        R.bad('schedule', s.where, '`every other` does not keep the day it names', fx)
                elif not any(y is sd for y in used):
                    R.unk('schedule', s.where, 'starts at %s' % pp(a, 4))
                elif any(y is w[1] for y in used) or any(isinstance(k, T) and any(y is w[1] for y in walk(k)) and any(y.op == 'loopval' for y in walk(k)) for k in st.facts):
                    R.ok('schedule', s.where, '`every other` keeps its start and the day it names')
                else:
                    R.bad('schedule', s.where, '`every other` does not keep the day it names', fx)
                if exp == 'Bimonthly' and len(args) > 1:
                    R.check(args[1] is dy[1], 'schedule', s.where, '`every other` keeps the day of the month', fx)
                continue
            if e == 1:
                if o is None:
                    R.unk('schedule', s.where, '`every` before `every other`: %s' % fx)
                    continue
                year = [E.decide(st, k) if k.op == 'eq' else (1 if z == ('=', Str('year')) else 0 if z[0] == '!' and 'year' in set(name(x) for x in z[1]) else None) for k, z in st.facts.items() if isinstance(k, T) and (k is what or k.op == 'eq' and what in k.a and Str('year') in k.a)]
                if wd and wd[0] == 1:
                    exp, val = 'Weekly', wd[1]
                elif dy and dy[0] == 1:
                    exp, val = 'Monthly', dy[1]
                elif 1 in year:
                    exp, val = 'Annually', sd
                else:
                    if wd and wd[0] == 0 and dy and dy[0] == 0 and 0 in year:
                        R.bad('schedule', s.where, 'an unknown schedule is accepted', fx)
                    elif wd and wd[0] == 0 and dy and dy[0] == 0 and any(isinstance(k, T) and appn(k, 'starts_with', 'contains', 'ends_with') and k.a[1] is what and k.a[2].op == 'str' and z == ('=', 1) for k, z in st.facts.items()):
                        R.bad('schedule', s.where, 'an unknown schedule is accepted for one of its parts', fx)
                    else:
                        R.unk('schedule', s.where, '`every`: %s' % fx)
                    continue
                if kind != exp:
                    R.bad('schedule', s.where, '`every` of that kind is %s and not %s' % (kind, exp), fx)
                elif args and args[0] is val:
                    R.ok('schedule', s.where, '`every` keeps the day it names')
                elif args and appn(args[0], 'succ', 'pred') and args[0].a[1] is val:
                    R.bad('schedule', s.where, '`every` is due on %s' % pp(args[0], 4), fx)
                elif args and (args[0].op in ('int', 'num', 'lin', 'min', 'max', 'mod', 'agg') or args[0] is payload(p2)):
                    R.bad('schedule', s.where, '`every` is due on %s' % pp(args[0], 4), fx)
                else:
                    R.unk('schedule', s.where, 'due on %s' % pp(args[0], 4) if args else kind)
                continue
            if o == 0 and e == 0 or o is None and e == 0:
                if kind != 'Once':
                    R.bad('schedule', s.where, 'a date is %s' % kind, fx)
                elif args[0].op == 'fld' and appn(args[0].a[0], 'parse_from_str') and strip_trim(args[0].a[0].a[1]) is p0:
                    R.ok('schedule', s.where, 'a date is due once, on that date')
                else:
                    (R.bad if args[0].op in ('max', 'min') and any(y is payload(p2) for y in walk(args[0])) and any(appn(y, 'parse_from_str') for y in walk(args[0])) else bad if args[0] is payload(p2) else unk)('schedule', s.where, 'due once on %s' % pp(args[0], 4), fx)
                continue
            R.unk('schedule', s.where, 'schedule: %s' % fx)
        if not n:
            R.unk('schedule', s.where, 'no schedule accepted')

    R.section('header', definition)
    R.section('schedule', schedule)
    b = c22.build(ana, R)
    R.section('account-lines', b['account-lines'])
    R.section('envelope-lines', b['envelope-lines'])
