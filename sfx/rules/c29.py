"""A journal is read as it is written.

What a chunk becomes is decided by its first word in every partition of the
reader; an accepted entry holds exactly the postings its lines were read as, in
order, and goes once into the entries and to every account; an accepted account
has the name written. Header and postings are compared word by word with the
documented form."""
from ..base import *
from ..acc import base_it, leaves_out, not_named
from ..rulefile import strip_trim, blankness
from .c20 import appn
from . import c22, c25, c26

EP, AP, FF = 'entry::Entry::parse', 'account::Account::parse', 'ledger::Ledger::add_from_file'
PE, PP, RC = 'account::Account::process_entry', 'posting::Posting::parse', 'utils::remove_comments'
MARKS = {'UnitCost': '@', 'TotalCost': '=', 'balance': '!', 'total balance': '!!'}
WORDS = ('account', 'currency', 'date_format', 'include')


def name(x):
    return x.a[0] if isinstance(x, T) and x.op == 'str' else x


def run(ana, R):
    p0, p1 = Sym('P0'), Sym('P1')

    def first_word(st):
        """('=', w) | ('!', {w..}) | ('none',) | None of the first word of the chunk"""
        for k, v in st.facts.items():
            if isinstance(k, T) and k.op == 'elem' and k.a[1] is Int(0) and k.a[0].op == 'words' and strip_trim(k.a[0].a[0]) is p1:
                if v[0] == '=':
                    return '=', name(v[1])
                if v[0] == '!':
                    return '!', set(name(x) for x in v[1])
                if v[0] == 'in':
                    return 'in', set(name(x) for x in v[1])
        if blankness(list(st.facts.items()), p1) == 1:
            return ('none',)
        for k, v in st.facts.items():
            if isinstance(k, T) and k.op == 'len' and v == ('=', 0) and (k.a[0] is p1 or k.a[0].op == 'words' and strip_trim(k.a[0].a[0]) is p1):
                return ('none',)
        return None

    def by_prefix(st):
        """all that is known about the chunk is its length, a number of its words and prefixes of it"""
        ks = [k for k in st.facts if isinstance(k, T) and any(y is p1 for y in walk(k)) and not any(y.op == 'app' and y.a[0] in (EP, AP, FF) for y in walk(k))]
        return [k for k in ks if appn(k, 'starts_with')] and all(appn(k, 'starts_with') and strip_trim(k.a[1]) is p1 or k.op in ('len', 'lt') and all(y.op in ('len', 'words', 'lt', 'int', 'sym') or appn(y, 'trim') for y in walk(k)) for k in ks)

    def dispatch():
        n = 'ledger::Ledger::parse_chunk'
        for x in (EP, AP, FF, PE):
            ana.fn(x)
        ana.need_fields('ledger::Ledger', 'entries', 'accounts', 'date_format', 'default_currency', 'file_path', 'decimal_symbol')
        fs = ana.adt('ledger::Ledger')['variants'][0]['fields']
        s = ana.summ(n, inline=(n,), opaque=(FF,))
        want = {'account': AP, 'include': FF}
        setting = {'currency': 'default_currency', 'date_format': 'date_format'}

        def now(st):
            m = ana.mem(st, 0)
            if m is p0:
                return {f: raw('fld', p0, f) for f in fs}
            if m is not None and m.op == 'agg':
                return dict(zip(fs, m.a[2:]))
            return None

        def second(t):
            return t.op == 'elem' and t.a[0].op == 'words' and strip_trim(t.a[0].a[0]) is p1 and t.a[1] is Int(1)
        for st, v in s.outs:
            ev = [e for e, il, _ in events(st.ev) if e[0] in (EP, AP, FF)]
            w = first_word(st)
            fx = facts_str(st)
            if w is None:
                if len(ev) == 1 and by_prefix(st):
                    R.bad('chunk', evline(ev[0]), 'what a chunk is, is decided by the letters it starts with, not by its first word', fx)
                elif not ev and is_ok(v) and now(st) is not None and all(x is raw('fld', p0, f) for f, x in now(st).items()) and by_prefix(st):
                    R.bad('chunk', s.where, 'a chunk is passed over for the letters it starts with', fx)
                elif not ev and is_ok(v) and now(st) is not None and all(x is raw('fld', p0, f) for f, x in now(st).items()) \
                        and all(k.op == 'len' and strip_trim(k.a[0]) is p1 and E.decide(st, Eq(k, Int(0))) == 0 for k in st.facts if isinstance(k, T)):
                    R.bad('chunk', s.where, 'a chunk with text in it is passed over, whatever it says', fx)
                else:
                    R.unk('chunk', s.where, 'first word not recognised: %s' % fx)
                continue
            if w[0] == 'none':
                R.check(not ev, 'chunk', s.where, 'a blank chunk means nothing', fx)
                continue
            if w[0] == '=':
                kw = w[1]
            elif w[0] == '!':
                left = set(WORDS) - w[1]
                if left and ev and ev[0][0] == EP:
                    R.bad('chunk', evline(ev[0]), 'a chunk starting with `%s` is read as an entry' % sorted(left)[0], fx)
                    continue
                if left:
                    R.unk('chunk', s.where, 'first word: %s' % fx)
                    continue
                kw = None
            elif w[0] == 'in' and w[1] - set(WORDS) and w[1] & set(WORDS):
                new = sorted(w[1] - set(WORDS))[0]
                m = now(st)
                if not ev and is_ok(v) and m is not None:
                    R.bad('chunk', s.where, 'an entry starting with `%s` is read as something else' % new, fx)
                elif ev and ev[0][0] != EP:
                    R.bad('chunk', evline(ev[0]), 'an entry starting with `%s` is read as something else' % new, fx)
                continue
            else:
                R.unk('chunk', s.where, 'first word: %s' % fx)
                continue
            if kw in setting:
                f = setting[kw]
                if ev:
                    R.bad('chunk', evline(ev[0]), 'a `%s` line is read as something else' % kw, fx)
                    continue
                m = now(st)
                if m is None:
                    R.unk('chunk', s.where, 'ledger %s' % pp(ana.mem(st, 0), 3))
                    continue
                changed = [x for x in fs if m[x] is not raw('fld', p0, x)]
                if is_ok(v):
                    if changed == [f] and second(m[f]):
                        R.ok('chunk', s.where, '`%s` sets the %s to the second word' % (kw, f))
                    elif not changed or changed != [f]:
                        R.bad('chunk', s.where, '`%s` sets %s' % (kw, ', '.join(changed) or 'nothing'), fx)
                    elif m[f].op in ('elem', 'str', 'lastof'):
                        R.bad('chunk', s.where, '`%s` sets the %s to %s' % (kw, f, pp(m[f], 4)), fx)
                    else:
                        R.unk('chunk', s.where, '`%s` sets the %s to %s' % (kw, f, pp(m[f], 4)))
                elif is_err(v):
                    R.ok('chunk', s.where, '`%s` without a usable value is an error' % kw)
                continue
            exp = want.get(kw, EP) if kw is not None else EP
            if kw is not None and kw not in WORDS:
                R.bad('chunk', s.where, 'an entry starting with `%s` is read as something else' % kw, fx) if not ev or ev[0][0] != EP else R.unk('chunk', s.where, 'the word `%s` is looked at' % kw)
                continue
            if not ev:
                if is_err(v):
                    if kw == 'include':
                        R.ok('chunk', s.where, '`include` without a file is an error')
                    else:
                        R.unk('chunk', s.where, 'a chunk is refused: %s' % fx)
                else:
                    R.bad('chunk', s.where, 'a chunk starting with %s is not read' % ('`%s`' % kw if kw else 'another word'), fx)
                continue
            if len(ev) != 1 or ev[0][0] != exp:
                R.bad('chunk', evline(ev[-1]), 'a chunk starting with %s is handed to %s' % ('`%s`' % kw if kw else 'another word', ', '.join(e[0] for e in ev)), fx)
                continue
            a = ev[0][2] if exp == FF else ev[0][1]
            if exp == FF:
                if second(a):
                    R.ok('chunk', evline(ev[0]), 'the file named by the second word is included')
                else:
                    if a.op in ('elem', 'lastof') and any(y.op == 'words' for y in walk(a)):
                        R.bad('chunk', evline(ev[0]), 'included is %s' % pp(a, 4), fx)
                    else:
                        R.unk('chunk', evline(ev[0]), 'included is %s' % pp(a, 4))
                continue
            if strip_trim(a) is not p1:
                if a.op in ('elem', 'sub', 'from') or appn(a, 'to_lowercase', 'to_uppercase', 'replace'):
                    R.bad('chunk', evline(ev[0]), 'what is read is not the chunk but %s' % pp(a, 4), fx)
                else:
                    R.unk('chunk', evline(ev[0]), 'what is read is %s' % pp(a, 4))
                continue
            R.ok('chunk', evline(ev[0]), 'a chunk is read by its first word')
            if exp == EP:
                added(st, v, ev[0], now(st), fx, s)

    def added(st, v, e, m, fx, s):
        c = raw('app', *e[:-1])
        okp = E.decide(st, Eq(discr(c), Int(0)))
        if okp != 1 or not is_ok(v):
            return
        if m is None:
            R.unk('entry', s.where, 'ledger %s' % pp(ana.mem(st, 0), 3))
            return
        x = m['entries']
        old = raw('fld', p0, 'entries')
        while x.op == 'sorted':
            x = x.a[0]
        if x.op == 'push' and x.a[0] is old and x.a[1] is payload_ok(c):
            R.ok('entry', s.where, 'an entry read is added once')
        elif x is old:
            R.bad('entry', s.where, 'an entry read is not added to the entries', fx)
        elif x.op == 'push' and x.a[0].op == 'push':
            R.bad('entry', s.where, 'an entry read is added twice', fx)
        else:
            R.unk('entry', s.where, 'entries become %s' % pp(x, 5))
        loops = [(e_[1], loop_of(e_[1])) for e_ in st.ev if e_[0] == 'loop']
        acc = raw('fld', p0, 'accounts')
        loops = [(lt, lp) for lt, lp in loops if any(y[0] == PE for f, u, ev in lp.parts for y, il, _ in events(ev))]
        if not loops:
            if not any(y[0] == PE for y, il, _ in events(st.ev)):
                # no account there, or nothing is done
                if any(isinstance(k, T) and any(y is acc for y in walk(k)) and not any(y is c for y in walk(k)) for k in st.facts):
                    R.unk('entry', s.where, 'no account is told of an entry: %s' % fx)
                else:
                    R.bad('entry', s.where, 'no account is told of an entry', fx)
            else:
                R.unk('entry', s.where, 'accounts not recognised')
            return
        for lt, lp in loops:
            where = '%s:%s' % lp.where
            for f, u, ev in lp.parts:
                if any(isinstance(k, T) and k.op == 'more' and z == ('=', 0) for k, z in f):
                    continue
                es = [y for y, il, _ in events(ev) if y[0] == PE]
                if len(es) == 1 and es[0][2] is payload_ok(c):
                    R.ok('entry', where, 'every account is told of an entry')
                elif not es:
                    # an account the entry does not touch need not be told; one with no envelopes shows nothing
                    ks = [k for k, z in f if isinstance(k, T) and k.op != 'more']
                    if not_named(f) == 1:
                        R.ok('entry', where, 'an account the entry does not name need not be told')
                    elif not_named(f) == 0:
                        R.bad('entry', where, 'an account that the entry names is not told of it', fstr(f))
                    elif any(any(y.op == 'k' and y.a[0] == lp.depth for y in walk(k)) or loops_in(k) for k in ks) or any(any(y.op == 'len' for y in walk(k)) for k in ks):
                        R.unk('entry', where, 'an account is not told of an entry in a case: %s' % fstr(f))
                    else:
                        R.bad('entry', where, 'an account is not told of an entry', fstr(f))
                elif len(es) > 1:
                    R.bad('entry', where, 'an account is told of an entry twice', fstr(f))
                else:
                    R.unk('entry', where, 'accounts are told of %s' % pp(es[0][2], 4))
            if leaves_out(lp.it):
                R.bad('entry', where, 'not every account is told of an entry: %s' % pp(lp.it, 4))

    def keep():
        n, PH, VA = 'entry::Entry::parse', 'entry::Entry::parse_header', 'entry::Entry::validate'
        ana.fn(PP)
        ana.fn(PH)
        s = ana.summ(n, inline=(n,), opaque=(PP, VA, PH))
        ef = ana.adt('entry::Entry')['variants'][0]['fields']
        h = None
        for st, v in s.outs:
            if not is_ok(v):
                continue
            fx = facts_str(st)
            hs = [e for e, il, _ in events(st.ev) if e[0] == PH]
            if len(hs) != 1:
                R.unk('entry', s.where, 'header read %d times' % len(hs))
                continue
            h = payload_ok(raw('app', *hs[0][:-1]))
            t = hs[0][1]
            if t.op == 'elem' and t.a[0].op == 'lines' and strip_trim(t.a[0].a[0]) is p0:
                R.check(t.a[1] is Int(0), 'entry', evline(hs[0]), 'the header is the first line of an entry', fx)
            else:
                R.unk('entry', evline(hs[0]), 'header %s' % pp(t, 4))
            x = v.a[2]
            if x is h:
                # no posting at all
                lines = [k for k in st.facts if isinstance(k, T) and k.op == 'lt' and any(y.op == 'lines' for y in walk(k))]
                loops = [e for e in st.ev if e[0] == 'loop']
                if loops:
                    R.bad('entry', s.where, 'the postings of an entry are not kept', fx)
                else:
                    R.unk('entry', s.where, 'no postings in a case: %s' % fx)
                continue
            if x.op == 'loopval':
                # the whole entry is carried through the loop
                lp = loop_of(x.a[0])
                i = dict(lp.inits).get(x.a[1])
                phi = raw('phi', lp.depth, x.a[1])
                if i is not h and not (i is not None and i.op == 'agg'):
                    R.unk('entry', s.where, 'entry %s' % pp(x, 3))
                    continue
                rows = []
                for f, u, ev in lp.parts:
                    y = dict(u).get(x.a[1], phi)
                    if y is phi:
                        rows.append((f, [], ev))
                    elif y.op == 'agg' and all(z is raw('fld', phi, g) for g, z in zip(ef, y.a[2:]) if g != 'postings'):
                        z, add_ = dict(zip(ef, y.a[2:]))['postings'], []
                        while z.op == 'push':
                            add_.insert(0, ('elem', z.a[1]))
                            z = z.a[0]
                        if z is not raw('fld', phi, 'postings'):
                            rows = None
                            break
                        rows.append((f, add_, ev))
                    else:
                        rows = None
                        break
                if rows is None:
                    R.unk('entry', s.where, 'entry %s' % pp(x, 3))
                else:
                    judge(rows, lp, fx)
                continue
            if x.op != 'agg':
                R.unk('entry', s.where, 'entry %s' % pp(x, 3))
                continue
            e = dict(zip(ef, x.a[2:]))
            for f in ('date', 'status', 'description', 'payee'):
                if e[f] is raw('fld', h, f):
                    R.ok('entry', s.where, 'the %s of an entry is that of its header' % f)
                elif e[f].op in ('str', 'fld', 'agg') and not (e[f].op == 'agg' and len(e[f].a) > 2):
                    R.bad('entry', s.where, 'the %s of an entry becomes %s' % (f, pp(e[f], 4)), fx)
                else:
                    R.unk('entry', s.where, 'the %s of an entry becomes %s' % (f, pp(e[f], 4)))
            ps(e['postings'], h, s, st, fx)

    def ps(t, h, s, st, fx):
        while t.op in ('sorted', 'reversed', 'dedup', 'filtered', 'take', 'from'):
            R.bad('entry', s.where, 'the postings of an entry are not kept as they are written (%s)' % t.op, fx)
            t = t.a[0]
            return
        if t.op == 'concat' and t.a[0] is raw('fld', h, 'postings'):
            t = t.a[1]
        c = comp(t)
        if c is None:
            if t.op == 'loopval' and any((y.op in ('insert', 'sorted', 'reversed') and any(z.op == 'phi' for z in walk(y.a[0])) or y.op == 'concat' and y.a[0].op == 'vec' and any(z.op == 'phi' for z in walk(y.a[-1]))) for f, u, ev in loop_of(t.a[0]).parts for k, x in u for y in walk(x)):
                R.bad('entry', '%s:%s' % loop_of(t.a[0]).where, 'a posting read is not added behind those before it', fx)
                return
            R.unk('entry', s.where, 'postings %s' % pp(t, 5))
            return
        where = '%s:%s' % c.lp.where
        # a pass over the postings already read
        lst, start, exact = base_it(c.lp.it)
        if lst is not None and lst.op == 'loopval' and not any(e[0] == PP for f, u, ev in c.lp.parts for e, il, _ in events(ev)):
            el = E.elem_of(lst, raw('k', c.lp.depth))
            for f, add_ in c.rows:
                if not add_:
                    R.bad('entry', where, 'a posting read is left out of its entry', fstr(f))
                elif len(add_) != 1 or add_[0][1] is not el:
                    R.unk('entry', where, 'added is %s' % pp(add_[0][1], 4))
            ps(lst, h, s, st, fx)
            return
        if not (c.init is raw('fld', h, 'postings') or c.init.op == 'vec' and not c.init.a):
            R.unk('entry', where, 'postings start as %s' % pp(c.init, 3))
        if c.lp.it is not None and any(y.op == 'irev' for y in walk(c.lp.it)):
            R.bad('entry', where, 'the postings of an entry are kept backwards', fx)
        judge([(f, add_, ev) for (f, add_), (f2, u, ev) in zip(c.rows, c.lp.parts)], c.lp, fx)

    def judge(rows, lp, fx):
        where = '%s:%s' % lp.where
        for f, add_, ev in rows:
            es = [e for e, il, _ in events(ev) if e[0] == PP]
            if not es:
                if add_:
                    R.unk('entry', where, 'added without being read: %s' % pp(add_[0][1], 4))
                continue
            got = [payload_ok(raw('app', *e[:-1])) for e in es]
            ad = [x for k, x in add_ if k == 'elem']
            if len(es) == 1 and len(add_) == 1 and ad == got:
                R.ok('entry', where, 'a posting read is added once, behind those before it')
            elif not add_:
                okp = fdec(f, Eq(discr(raw('app', *es[0][:-1])), Int(0)))
                if okp == 0:
                    R.bad('entry', where, 'a posting that cannot be read is passed over', fstr(f))
                else:
                    R.bad('entry', where, 'a posting read is left out of its entry', fstr(f))
            elif len(ad) == 2 and ad[0] is ad[1]:
                R.bad('entry', where, 'a posting is added twice', fstr(f))
            else:
                R.unk('entry', where, 'added is %s' % ', '.join(pp(x, 4) for k, x in add_))

    def account():
        n = 'account::Account::parse'
        EV, AE = 'envelope::Envelope::parse', 'account::Account::add_envelope'
        s = ana.summ(n, inline=(n,), opaque=(EV, AE, RC))
        af = ana.adt('account::Account')['variants'][0]['fields']
        ana.need_fields('account::Account', 'name', 'expense_envelopes', 'goal_envelopes', 'real_value')

        def origin(t, d=0):
            while True:
                if t.op == 'loopval':
                    i = dict(loop_of(t.a[0]).inits).get(t.a[1])
                    if i is None:
                        return t
                    t = i
                elif t.op == 'post' and t.a[0] == AE:
                    t = t.a[2]
                else:
                    return t
        for st, v in s.outs:
            if not is_ok(v):
                continue
            fx = facts_str(st)
            o = origin(v.a[2])
            if o.op != 'agg':
                R.unk('account', s.where, 'account %s' % pp(o, 3))
                continue
            a = dict(zip(af, o.a[2:]))
            t = a['name']
            if t.op == 'elem' and t.a[0].op == 'words' and strip_trim(base_line(t.a[0].a[0])) is not None:
                R.check(t.a[1] is Int(1), 'account', s.where, 'the name of an account is the second word of its first line', fx)
                n_ = raw('len', t.a[0])
                d = E.decide(st, Eq(n_, Int(2)))
                if d is None and not related(st, Eq(n_, Int(2))) or d is None and E.decide(st, Lt(n_, Int(3))) is None and all(E.decide(st, Eq(n_, Int(j))) is None for j in range(3, 6)) and E.decide(st, Lt(Int(2), n_)) is None:
                    R.bad('account', s.where, 'words behind the name of an account are passed over', fx)
                elif d == 1:
                    R.ok('account', s.where, 'a name with spaces is an error')
            elif t.op in ('str',) or appn(t, 'to_lowercase', 'to_uppercase') or appn(t, 'join') and t.a[1].op == 'from' and t.a[1].a[0].op == 'words' or any(altered(t, y) for y in walk(t) if y.op == 'elem' and y.a[0].op == 'words'):
                R.bad('account', s.where, 'the name of an account becomes %s' % pp(t, 4), fx)
            else:
                R.unk('account', s.where, 'name %s' % pp(t, 4))
            own = v.a[2]
            rv = a['real_value']
            for e, il, _ in events(st.ev):
                if e[0] == EV:
                    y = e[2]
                    if y is t or y.op == 'fld' and y.a[1] == 'name' and (origin(y.a[0]) is o or y.a[0].op == 'phi'):
                        R.ok('account', evline(e), 'an envelope is read for its own account')
                    else:
                        R.unk('account', evline(e), 'an envelope is read for %s' % pp(y, 4))

    def base_line(t):
        t = strip_trim(t)
        if t.op == 'app' and t.a[0] == RC:
            t = strip_trim(t.a[1])
        if t.op == 'elem' and t.a[0].op == 'lines' and t.a[1] is Int(0) and strip_trim(t.a[0].a[0]) is p0:
            return p0
        return raw('none')

    b = c25.build(ana, R, dict(MARKS), full=True)
    R.section('lines', c22.build(ana, R)['lines'])
    R.section('chunk', dispatch)
    R.section('entry', keep)
    R.section('account', account)
    R.section('header', b['header'])
    R.section('reader', b['reader'])
    R.section('reader', b['envelope'])
    R.section('amount', [f for f in c26.build(ana, R) if f.__name__ == 'amounts'][0])
