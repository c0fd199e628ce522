"""Entries are kept in date order and the register shows its range.

Value flow of the journal reader: the entry list changes only by adding the
parsed entry and a stable sort by ascending date. Partitions of the register's
filter: an entry is kept exactly when one of its postings is to a selected
account and its date is neither before the begin nor after the end date."""
from ..base import *
from ..acc import base_it, leaves_out

ARD = 'entry::Entry::as_register_data'
EP = 'entry::Entry::parse'


def order_of(rows):
    """Comparator summary -> key term when it is ascending by that key alone, else reason."""
    res = {}
    for tag, o, f in rows:
        if tag != 'cmp':
            return None, 'comparator %s' % (tag,)
        res.setdefault(o, []).append(f)
    return res, None


def by_date(rows, date):
    """Is the comparison exactly `ascending by date`? True / reason it is not / None"""
    a, b = raw('fld', Sym('#a'), date), raw('fld', Sym('#b'), date)
    if any(r[0] != 'cmp' for r in rows):
        return None
    verdict = True
    for want, fx in (('Less', [(Lt(a, b), 1)]), ('Greater', [(Lt(b, a), 1)]), ('Equal', [(Eq(a, b), 1)])):
        s = E.State()
        if not all(E.assume(s, x, v) for x, v in fx):
            return None
        for _, o, f in rows:
            s2 = s.copy()
            ok = True
            for k, v in f:
                if v[0] != '=':
                    return None
                if E.decide(s2, k) is None and not any(y in (a, b) for y in walk(k)):
                    extra = True
                if not E.assume_val(s2, k, v[1]):
                    ok = False
                    break
            if not ok:
                continue
            if str(o) != want:
                dep = [k for k, _ in f if k.op in ('eq', 'lt') and not any(y in (a, b) for y in walk(k))]
                verdict = 'entries with %s dates compare as %s%s' % (
                    {'Less': 'ascending', 'Greater': 'descending', 'Equal': 'equal'}[want], o, ' depending on %s' % pp(dep[0], 4) if dep else '')
                return verdict
    return verdict


def run(ana, R):
    def keep():
        n = 'ledger::Ledger::parse_chunk'
        ana.need_fields('ledger::Ledger', 'entries')
        ana.need_fields('entry::Entry', 'date')
        s = ana.summ(n, inline=(n,), opaque=('add_from_file',))
        fs = ana.adt('ledger::Ledger')['variants'][0]['fields']
        ent = raw('fld', Sym('P0'), 'entries')
        seen = 0
        for st, v in s.outs:
            m = ana.mem(st, 0)
            if m is None or m.op != 'agg':
                continue
            e = m.a[2 + fs.index('entries')]
            if e is ent:
                # nothing added: fine unless an entry was accepted
                if is_ok(v) and any(ev[0] == EP for ev, _, _ in events(st.ev)):
                    R.bad('entry-added', s.where, 'an entry is read but not kept', facts_str(st))
                continue
            seen += 1
            x, srt = e, []
            while x.op == 'sorted':
                srt.append(x.a[1])
                x = x.a[0]
            if x.op == 'app' and x.a[0].endswith('insert') and len(x.a) == 4 and x.a[1] is ent and x.a[2].op == 'ppoint' and x.a[2].a[0] is ent and not srt:
                point(s, st, x.a[2].a[1], raw('fld', x.a[3], 'date'))
                continue
            if placed(s, st, x, ent, bool(srt)):
                continue
            if not (x.op == 'push' and x.a[0] is ent):
                R.unk('date-order', s.where, 'entries become %s' % pp(e, 4))
                continue
            if not srt:
                new = raw('fld', x.a[1], 'date')
                last = raw('fld', raw('lastof', ent), 'date')
                if fdec(st.facts, Lt(new, last)) == 0 or fdec(st.facts, Eq(raw('len', ent), Int(0))) == 1 or fdec(st.facts, Lt(Int(0), raw('len', ent))) == 0:
                    R.ok('date-order', s.where, 'added behind the last entry, which is not later')
                    continue
                first = raw('elem', ent, Int(0))
                ab = [k for k in st.facts if isinstance(k, T) and any(y is ent for y in walk(k)) and k.op in ('lt', 'eq')]
                if any(any(y is first for y in walk(k)) for k in ab) and not any(y.op == 'lastof' for k in ab for y in walk(k)):
                    R.bad('date-order', s.where, 'an entry is added without sorting although only the first entry was compared', facts_str(st))
                    continue
                if any(isinstance(k, T) and k is not ent and any(y is ent for y in walk(k)) and k.op not in ('found', 'discr') for k in st.facts):
                    R.unk('date-order', s.where, 'an entry is added without sorting under a condition on the entries')
                    continue
                R.bad('date-order', s.where, 'an entry is added without restoring date order', facts_str(st))
                continue
            c = srt[0]
            if not (isinstance(c, tuple) and len(c) == 3 and c[0] in ('by', 'key')):
                R.unk('date-order', s.where, 'sorted by %s' % (c,))
                continue
            if len(c[2]) == 1 and c[2][0][0] == 'key':
                k = c[2][0][1]
                da = raw('fld', Sym('#a'), 'date')
                r = True if k is da else 'sorted by %s' % pp(k, 4) if any(y is Sym('#a') for y in walk(k)) and k.op in ('fld', 'agg') else None
                if k.op == 'agg' and k.a[0] == 'tuple' and k.a[2] is not da:
                    r = None
            else:
                r = by_date(c[2], 'date')
            if r is None:
                R.unk('date-order', s.where, 'comparison not recognised')
            elif r is True:
                R.ok('date-order', s.where, 'sorted by date, ascending')
                R.check(c[1] is True, 'stable-order', s.where, 'the sort keeps entries of one date in the order they were read' if c[1] is True else
                        'the sort may exchange entries of the same date')
            else:
                R.bad('date-order', s.where, r, facts_str(st))
        if not seen:
            R.unk('date-order', s.where, 'no path that adds an entry')

    def placed(s, st, x, ent, srt):
        """Inserted at a position found by searching the list: entries of the same date must stay before it."""
        if x.op == 'app' and x.a[0].endswith('insert') and len(x.a) == 4 and x.a[1] is ent:
            pos, new = x.a[2], x.a[3]
        elif x.op == 'concat' and x.a[0].op == 'vec' and len(x.a[0].a) == 1 and x.a[1] is ent:
            pos, new = Int(0), x.a[0].a[0]
        elif x.op == 'push' and x.a[0] is ent and not srt:
            pos, new = raw('len', ent), x.a[1]
        else:
            return False
        d = raw('fld', new, 'date')
        hit = [y for y in walk(pos) if y.op == 'fld' and str(y.a[1]) == 'Ok.0' and y.a[0].op == 'app' and
               str(y.a[0].a[0]).rsplit('::', 1)[-1].startswith('binary_search') and y.a[0].a[1] is ent]
        if hit and num(add(pos, hit[0], -1)) is not None and not srt:
            R.bad('stable-order', s.where, 'an entry is put next to any one of those already read of the same date', facts_str(st))
            return True
        fl = [k for k in st.facts if isinstance(k, T) and k.op == 'found' and any(y is ent for y in walk(loop_of(k.a[0]).it))]
        if len(fl) != 1:
            if pos is Int(0) and not fl and not any(isinstance(k, T) and any(y is ent for y in walk(k)) for k in st.facts):
                R.bad('stable-order' if srt else 'date-order', s.where, 'an entry is put before those already read', facts_str(st))
                return True
            return False
        lp = loop_of(fl[0].a[0])
        found = fdec(st.facts, fl[0])
        src, whole = src_of(lp.it.a[0] if lp.it.op == 'irev' else lp.it)
        back = lp.it.op == 'irev'
        hp = raw('hitpos', fl[0].a[0])
        if src is not ent:
            return False
        if back and (found == 1 and pos is add(raw('len', ent), hp, -1) or found == 0 and pos is Int(0)):
            # everything behind the position was passed over
            rows, tm = [dict(f) for f, u, ev in lp.parts], raw('fld', raw('elem', ent, raw('k', lp.depth)), 'date')
        elif not back and found == 1 and pos is hp:
            # everything behind the position is at least as late as the hit
            rows, tm = [st.facts], raw('fld', raw('elem', ent, raw('hit', fl[0].a[0])), 'date')
        elif found == 0 and pos is raw('len', ent):
            # every entry was passed over
            rows, tm = [dict(f) for f, u, ev in lp.parts], raw('fld', raw('elem', ent, raw('k', lp.depth)), 'date')
        else:
            return False
        end = pos is raw('len', ent)
        for f in rows:
            s2 = E.State()
            for k, v in f.items():
                if v[0] == '=' and any(y is tm or y is d for y in walk(k)) and not E.assume_val(s2, k, v[1]):
                    return False
            if not any(any(y is tm for y in walk(k)) for k in s2.facts):
                return False
            s3 = s2.copy()
            if end:
                if E.assume(s3, Lt(d, tm), 1):
                    R.bad('date-order', s.where, 'an entry is put behind one of a later date', facts_str(st))
                    return True
                continue
            if E.assume(s3, Eq(tm, d), 1):
                R.bad('stable-order', s.where, 'an entry is put before those already read of the same date', facts_str(st))
                return True
            s3 = s2.copy()
            if E.assume(s3, Lt(tm, d), 1) and not srt:
                R.bad('date-order', s.where, 'an entry is put before one of an earlier date', facts_str(st))
                return True
        R.ok('date-order', s.where, 'inserted before the first entry of a later date')
        return True

    def point(s, st, rows, d):
        """Inserted where the first entry with a later date is."""
        a = raw('fld', Sym('#a'), 'date')
        for want, fx, txt in ((True, (Lt(a, d), 1), 'earlier'), (True, (Eq(a, d), 1), 'the same'), (False, (Lt(d, a), 1), 'later')):
            for _, b, f in rows:
                s2 = E.State()
                if not E.assume(s2, fx[0], fx[1]):
                    return R.unk('date-order', s.where, 'insertion point')
                if any(v[0] != '=' for k, v in f):
                    return R.unk('date-order', s.where, 'insertion point')
                if not all(E.assume_val(s2, k, v[1]) for k, v in f):
                    continue
                R.check(bool(b) == want, 'date-order', s.where, 'inserted %s entries of %s date' % ('after' if b else 'before', txt), facts_str(st))

    def register():
        n = 'ledger::register::Register::display'
        s = ana.summ(n, inline=(n,))
        P = [Sym('P%d' % i) for i in range(5)]
        calls = {}
        for st, v in s.outs:
            for e, inl, f in events(st.ev):
                if e[0] == ARD:
                    x = e[1]
                    while x.op == 'elem':
                        x = x.a[0]
                        break
                    calls[x] = e
        if not calls:
            raise Unknown('no register data is made')
        for x, e in calls.items():
            if x is P[0]:
                R.bad('register-range', evline(e), 'the register takes every entry without a filter')
                continue
            c = comp(x)
            # turned round again later on, or anything else done about the order
            back = any(y is x for st, v in s.outs for z in st.ev if z[0] == 'loop' for y in walk(loop_of(z[1]).it) if loop_of(z[1]).it is not None
                       and loop_of(z[1]).it.op not in ('it', 'itm'))
            if c is None:
                R.unk('register-range', evline(e), 'entries of the register: %s' % pp(x, 4))
                continue
            filt(s, c, P, back)

    def filt(s, c, P, back):
        where = '%s:%s' % c.lp.where
        en = raw('elem', P[0], raw('k', c.lp.depth))
        date = raw('fld', en, 'date')
        ps = raw('fld', en, 'postings')
        some = lambda o: raw('fld', o, 'Some', 0)
        loops = set()
        l = base_it(c.lp.it)[0]
        if l is P[0] or l is not None and l.op in ('take', 'from') and l.a[0] is P[0]:
            if leaves_out(c.lp.it):
                R.bad('register-range', where, 'only some of the entries are considered: %s' % pp(c.lp.it, 4))
                return
            if sum(1 for y in walk(c.lp.it) if y.op == 'irev') % 2 and not back:
                R.bad('date-order', where, 'the register goes through the entries from the last to the first')
                return
        for f, add_ in c.rows:
            st = fstate(f)
            kept = [x for k, x in add_]
            if any(x is not en for x in kept) or len(kept) > 1:
                R.unk('register-range', where, 'kept: %s' % '; '.join(pp(x, 3) for x in kept))
                continue
            fl = [k for k in st.facts if isinstance(k, T) and k.op == 'found' and src_of(loop_of(k.a[0]).it)[0] is ps and not leaves_out(loop_of(k.a[0]).it)]
            if len(fl) > 1:
                R.unk('register-range', where, 'several searches of the postings')
                continue
            sel = fdec(f, fl[0]) if fl else None
            part = [k for k in st.facts if isinstance(k, T) and k.op == 'found' and base_it(loop_of(k.a[0]).it)[0] is not None and leaves_out(loop_of(k.a[0]).it) and
                    any(y is ps for y in walk(loop_of(k.a[0]).it))]
            if part and not fl:
                R.bad('register-selects', '%s:%s' % loop_of(part[0].a[0]).where, 'only some of the postings of an entry are looked at', fstr(f))
                continue
            if fl:
                loops.add(fl[0])

            def spec(o):
                lo = o(Eq(discr(P[2]), Int(1))) and o(Lt(date, payload(P[2])))
                hi = o(Eq(discr(P[3]), Int(1))) and o(Lt(payload(P[3]), date))
                return (bool(lo), bool(hi))
            for (lo, hi), asked, s2 in outcomes(st, spec):
                und = [a for a, _ in asked if related(st, a, known=atoms_known(P, date))]
                msg = None
                if kept and lo:
                    msg = 'an entry dated before the begin date is kept'
                elif kept and hi:
                    msg = 'an entry dated after the end date is kept'
                elif kept and sel == 0:
                    msg = 'an entry without a posting to a selected account is kept'
                elif kept and sel is None:
                    if any(isinstance(k, T) and any(y is ps for y in walk(k)) for k in st.facts):
                        R.unk('register-range', where, 'selection not recognised')
                        continue
                    msg = 'entries are kept without looking at their postings'
                elif not kept and sel == 1 and not lo and not hi:
                    msg = 'an entry of a selected account and within the dates is left out'
                elif not kept and sel is None and not lo and not hi:
                    R.unk('register-range', where, 'an entry is left out for a reason not recognised')
                    continue
                if msg is None:
                    R.ok('register-range', where, 'partition of the filter')
                elif und:
                    R.unk('register-range', where, 'condition not recognised: ' + msg)
                else:
                    R.bad('register-range', where, msg, fstr(f))
        for fl in loops:
            search(fl, ps, P, c)

    def atoms_known(P, date):
        return {Lt(date, payload(P[2])), Lt(payload(P[3]), date), Lt(payload(P[2]), date), Lt(date, payload(P[3])), discr(P[2]), discr(P[3]), Eq(date, payload(P[2])), Eq(date, payload(P[3]))}

    def search(fl, ps, P, c):
        """The search among the postings: selected by name."""
        lp = loop_of(fl.a[0])
        where = '%s:%s' % lp.where
        el = raw('elem', ps, raw('k', lp.depth))
        for f, u, ev in lp.parts:
            st = fstate(f)
            at = [(k, fdec(f, k)) for k in st.facts if isinstance(k, T) and k.op == 'app']
            sel = [(k, v) for k, v in at if k.a[0] in ('str::contains', 'str::starts_with')]
            if any(v == 1 for k, v in sel):
                R.bad('register-selects', where, 'a posting to a selected account is passed over', fstr(f))
            elif sel:
                R.ok('register-selects', where, 'a posting is passed over only if its account is not selected')
            elif any(k is discr(el) for k in st.facts) and all(k is discr(el) or not any(y is el for y in walk(k)) for k in st.facts if isinstance(k, T)):
                R.bad('register-selects', where, 'a posting is passed over for its kind, whatever its account', fstr(f))
            else:
                R.unk('register-selects', where, '; '.join(fstr(f)))
        hit = raw('elem', ps, raw('hit', fl.a[0]))
        for f, add_ in c.rows:
            st = fstate(f)
            if fdec(f, fl) != 1:
                continue
            named = fdec(f, Eq(discr(P[4]), Int(1)))
            at = [k for k in st.facts if isinstance(k, T) and k.op == 'app' and any(y is hit for y in walk(k)) and fdec(f, k) == 1]
            if named == 1:
                ok = any(k.a[0] == 'str::contains' and k.a[2] is payload(P[4]) for k in at)
            elif named == 0:
                ok = any(k.a[0] == 'str::starts_with' and k.a[2] is Str('asset') for k in at)
            else:
                ok = None
            if ok:
                R.ok('register-selects', where, 'accounts are selected by the given text, else assets')
            elif at:
                R.bad('register-selects', where, 'an account is selected because of %s' % '; '.join(pp(k, 5) for k in at), fstr(f))
            else:
                R.unk('register-selects', where, 'selection not recognised')

    def shown():
        """Every kept entry with register data is shown, in order."""
        n = 'ledger::register::Register::display'
        s = ana.summ(n, inline=(n,))
        done = set()
        for st, v in s.outs:
            for e in st.ev:
                if e[0] != 'loop' or e[1] in done:
                    continue
                done.add(e[1])
                lp = loop_of(e[1])
                if not any(x[0] == ARD for f, u, ev in lp.parts for x in ev):
                    continue
                for st2, v2 in s.outs:
                    if is_ok(v2) and fdec(st2.facts, raw('found', e[1])) == 1:
                        R.bad('register-shows', '%s:%s' % lp.where, 'the register is cut short', facts_str(st2))
                lists = [p for p, i in lp.inits if i.op == 'vec' and not i.a]
                for f, u, ev in lp.parts:
                    r = [raw('app', *x[:-1]) for x in ev if x[0] == ARD]
                    if len(r) != 1:
                        continue
                    r = r[0]
                    okd = payload_ok(r)
                    has = fdec(f, Eq(discr(okd), Int(1)))
                    pushed = [p for p in lists if dict(u).get(p) is not None and any(y.op == 'push' and y.a[1] is payload(okd) for y in walk(dict(u)[p]))]
                    where = '%s:%s' % lp.where
                    if has == 1 and not pushed:
                        empt = [k for k in (x[0] for x in f) if isinstance(k, T) and k.op == 'len' and any(y is okd for y in walk(k)) and fdec(f, Eq(k, Int(0))) == 1]
                        if empt:
                            R.ok('register-shows', where, 'only entries without an amount are left out')
                        else:
                            R.bad('register-shows', where, 'an entry with register data is left out', fstr(f))
                    elif has == 0 and not pushed or pushed and has == 1:
                        R.ok('register-shows', where, 'an entry with register data is shown')
                    else:
                        R.unk('register-shows', where, '; '.join(fstr(f)))

    R.section('date-order', keep)
    R.section('register-range', register)
    R.section('register-shows', shown)
