"""Each CSV record becomes exactly one entry, by the first rules that match.

The list the reader's loop builds from the CSV reader (which records, in which
order, what a bad one leads to), the iterator over it, the search for the block
of rules and what it tests, the loop that builds postings, and the table of the
posting added to a single one, each against its specification."""
import re
from ..base import *
from ..acc import base_it
from .. import rulefile
from .c08 import V

GE = 'importer::Rules::get_entry_from_record'
PP = 'posting::Posting::parse'


def appn(t, *names):
    return t.op == 'app' and str(t.a[0]).split('::')[-1] in names


def injected(t):
    """replace(fold of replace(.., '%key%', value) over the variables, starting from X, '%%', '%') -> (X, variables, ok)
    ok: True, False (definitely something else), None"""
    if not (appn(t, 'replace') and t.a[2] is Str('%%') and t.a[3] is Str('%')):
        return None
    x = t.a[1]
    if x.op != 'loopval':
        return None
    lp = loop_of(x.a[0])
    it = lp.it
    if it is None or it.op != 'it':
        return None
    ent = it.a[0]
    init = dict(lp.inits).get(x.a[1])
    if init is None or ent.op != 'entries' or len(lp.parts) != 1:
        return None
    vs = ent.a[0]
    f, u, ev = lp.parts[0]
    phi = raw('phi', lp.depth, x.a[1])
    y = dict(u).get(x.a[1], phi)
    key = raw('elem', raw('keys', vs), raw('k', lp.depth))
    ok = None
    if appn(y, 'replace') and y.a[1] is phi and len(y.a) == 4:
        pat, val = y.a[2], y.a[3]
        if val.op == 'at' and val.a[0] is vs and val.a[1] is key:
            if pat.op == 'cat' and list(pat.a) == [Str('%'), key, Str('%')]:
                ok = True
            elif pat.op == 'cat' and key in pat.a and all(z is key or z.op == 'str' for z in pat.a) or pat is key:
                ok = False
        elif val is key or val.op == 'str':
            ok = False
    elif appn(y, 'replacen') and y.a[1] is phi:
        ok = False
    if it.a[1] != 0 and num(it.a[1]) != 0:
        ok = False
    return init, vs, ok


def cut_injected(t):
    """A piece of an injected text, or a changed one."""
    t = rulefile.strip_trim(t)
    if t.op == 'elem' and t.a[0].op in ('words', 'splits', 'lines') and num(t.a[1]) is not None:
        return injected(rulefile.strip_trim(t.a[0].a[0])) is not None
    if appn(t, 'join') and t.a[1].op in ('words', 'from', 'take', 'lines'):
        y = t.a[1]
        while y.op in ('words', 'from', 'take', 'lines'):
            y = rulefile.strip_trim(y.a[0])
        return injected(y) is not None
    return any(injected(y) is not None and altered(t, y) for y in walk(t)) if t.op == 'app' and injected(t) is None else False


def mentions(t, x, seen=None):
    seen = seen if seen is not None else set()
    for y in walk(t):
        if y is x:
            return True
        if y.op == 'loop' and y not in seen:
            seen.add(y)
            lp = loop_of(y)
            ts = [lp.it] + [i for _, i in lp.inits] + [k for f, u, ev in lp.parts for k, _ in f if isinstance(k, T)]
            if any(mentions(z, x, seen) for z in ts if z is not None):
                return True
    return False


def num_test(t):
    """A comparison of something with a number: says nothing the cases of the specification leave out."""
    return t.op in ('len', 'discr') or t.op in ('lt', 'eq') and any(num(x) is not None for x in t.a)


def run(ana, R):
    p0, p1, p2 = Sym('P0'), Sym('P1'), Sym('P2')

    def reader():
        n = 'importer::CsvImporter::from_strs'
        ana.need_fields('importer::CsvImporter', 'rules', 'records')
        fs = ana.adt('importer::CsvImporter')['variants'][0]['fields']
        s = ana.summ(n)
        rl = raw('app', 'importer::Rules::from_str', p1)
        for st, v in s.outs:
            if not is_ok(v):
                continue
            if v.a[2].op != 'agg':
                R.unk('records', s.where, pp(v, 3))
                continue
            f = dict(zip(fs, v.a[2].a[2:]))
            if f['rules'] is payload_ok(rl):
                R.ok('records', s.where, 'the rules are those of the rules file')
            else:
                R.unk('records', s.where, 'rules %s' % pp(f['rules'], 3))
            c = comp(f['records'])
            if c is None:
                x = f['records']
                if x.op == 'loopval':
                    l = loop_of(x.a[0])
                    ph = raw('phi', l.depth, x.a[1])
                    for pf, u, ev in l.parts:
                        y = dict(u).get(x.a[1], ph)
                        if y.op == 'concat' and len(y.a) == 2 and y.a[1] is ph and y.a[0].op == 'vec' and len(y.a[0].a) == 1:
                            R.bad('records', '%s:%s' % l.where, 'a record is put before those read earlier', fstr(pf))
                R.unk('records', s.where, 'records %s' % pp(f['records'], 3))
                continue
            where = '%s:%s' % c.lp.where
            if c.init.op != 'vec' or c.init.a:
                R.unk('records', where, 'records start as %s' % pp(c.init, 3))
            it = c.lp.it
            rev = False
            while it is not None and it.op in ('irev', 'ienum', 'iskip', 'itake', 'ires'):
                if it.op not in ('ienum', 'ires'):
                    rev = True
                it = it.a[0]
            if it is None or it.op != 'it':
                R.unk('records', where, 'records from %s' % pp(it, 3))
                continue
            lst, start = it.a[0], it.a[1]
            skip = raw('fld', payload_ok(rl), 'skip')
            base = lst
            skips = []
            while base.op == 'from':
                skips.append(base.a[1])
                base = base.a[0]
            if base.op != 'records' and not appn(base, 'records', 'into_records'):
                R.unk('records', where, 'records from %s' % pp(base, 3))
                continue
            if start != 0 and num(start) != 0:
                skips.append(start)
            if len(skips) == 1 and skips[0] is skip and not rev:
                R.ok('skip', where, 'exactly the configured number of records is skipped')
            elif rev:
                R.unk('skip', where, 'order %s' % pp(c.lp.it, 3))
            elif not skips:
                inrow = any(any(y is skip for y in walk(k)) for pf, _ in c.rows for k, _ in pf if isinstance(k, T))
                (R.unk if inrow else R.bad)('skip', where, 'no record is skipped')
            elif len(skips) == 1 and (skips[0].op in ('int', 'lin', 'max', 'min') or skips[0].op == 'fld' or skips[0].op == 'app' and re.search('(saturating|wrapping|overflowing|checked)_', str(skips[0].a[0])) and skip in skips[0].a):
                R.bad('skip', where, 'the number of records skipped is %s' % pp(skips[0], 4))
            else:
                R.unk('skip', where, 'skipped: %s' % ', '.join(pp(x, 3) for x in skips))
            # the CSV reader
            rd = base.a[0] if base.op == 'records' else base.a[1]
            conf, x = [], rd
            while x.op == 'app' or x.op == 'post':
                nm = str(x.a[0]).split('::')[-1]
                if x.op == 'app' and nm == 'from_reader':
                    if len(x.a) == 2:
                        conf.append(('plain', x.a[1]))
                        break
                    src = x.a[2]
                    if src is not p0:
                        R.unk('records', where, 'read from %s' % pp(src, 3))
                    x = x.a[1]
                elif x.op == 'app':
                    conf.append((nm, x.a[2] if len(x.a) > 2 else None))
                    x = x.a[1] if len(x.a) > 1 else Str('')
                else:
                    conf.append((nm, x.a[3] if len(x.a) > 3 else None))
                    x = x.a[2]
            hd = [y for nm, y in conf if nm == 'has_headers']
            if any(nm == 'plain' for nm, y in conf) or (not hd and any(nm in ('new', 'default') for nm, y in conf)):
                R.bad('headers', where, 'the CSV reader drops the first record as a header, besides the records skipped')
            elif hd and all(y is Int(0) for y in hd):
                R.ok('headers', where, 'no record is taken for a header by the CSV reader')
            elif hd and hd[0] is Int(1):
                R.bad('headers', where, 'the CSV reader drops the first record as a header, besides the records skipped')
            else:
                R.unk('headers', where, 'reader %s' % pp(rd, 4))
            for nm, y in conf:
                if nm == 'comment' and y is not NONE:
                    R.bad('records', where, 'the CSV reader drops records that look like comments')
                elif (nm, y) in (('double_quote', Int(0)), ('quoting', Int(0))) or nm in ('delimiter', 'quote') and y is not None and y.op == 'int' and y is not Int({'delimiter': 44, 'quote': 34}[nm]) \
                        or nm == 'escape' and y.op == 'agg' and y is not NONE:
                    R.bad('records', where, 'the CSV reader takes the columns of a record apart in another way: %s(%s)' % (nm, pp(y, 3)))
                elif nm not in ('has_headers', 'new', 'default', 'plain', 'flexible'):
                    R.unk('records', where, 'reader option %s' % nm)
            el = raw('elem', lst, raw('k', c.lp.depth))
            for pf, add_ in c.rows:
                okr = fdec(pf, Eq(discr(el), Int(0)))
                other = [k for k, _ in pf if isinstance(k, T) and k.op != 'more' and k is not discr(el)]
                if len(add_) == 1 and add_[0] == ('elem', payload_ok(el)) and okr == 1:
                    R.ok('records', where, 'a record is kept, after those before it')
                elif not add_ and okr == 0:
                    R.bad('records', where, 'a record that cannot be read is passed over', fstr(pf))
                elif not add_ and (not other or any(mentions(k, el) for k in other)):
                    R.bad('records', where, 'a record is passed over', fstr(pf))
                elif len(add_) > 1 and all(a == ('elem', payload_ok(el)) for a in add_):
                    R.bad('records', where, 'a record is kept more than once', fstr(pf))
                else:
                    R.unk('records', where, 'kept: %s' % add_)
            lt = f['records'].a[0]
            if E.decide(st, raw('found', lt)) == 1:
                R.bad('records', where, 'reading stops before the last record', facts_str(st))

    def nexts():
        n = '<importer::CsvImporter as std::iter::Iterator>::next'
        s = ana.summ(n, opaque=(GE,))
        fs = ana.adt('importer::CsvImporter')['variants'][0]['fields']
        rec = raw('fld', p0, 'records')
        for st, v in s.outs:
            m = ana.mem(st, 0)
            left = m.a[2 + fs.index('records')] if m is not None and m.op == 'agg' else rec if m is p0 else None
            any_ = E.decide(st, Lt(Int(0), raw('len', rec)))
            if v is NONE:
                if any_ == 0:
                    R.ok('iterate', s.where, 'ends when no record is left')
                elif any_ == 1:
                    R.bad('iterate', s.where, 'ends although a record is left', facts_str(st))
                else:
                    R.unk('iterate', s.where, 'ends: %s' % facts_str(st))
                continue
            if v.op != 'agg' or len(v.a) != 3 or not appn(v.a[2], 'get_entry_from_record'):
                R.unk('iterate', s.where, 'yields %s' % pp(v, 4))
                continue
            r = v.a[2].a[2]
            if r is raw('elem', rec, Int(0)) and left is raw('from', rec, Int(1)) or r is raw('elem', rec, Int(0)) and left is raw('from', rec, 1):
                R.ok('iterate', s.where, 'the next record in order, once')
            elif r.op in ('elem', 'lastof') and r.a[0] is rec and r is not raw('elem', rec, Int(0)):
                R.bad('iterate', s.where, 'the next entry is made from %s' % pp(r, 4), facts_str(st))
            elif r is raw('elem', rec, Int(0)) and left is rec:
                R.bad('iterate', s.where, 'the record stays in the list and comes again', facts_str(st))
            elif r is raw('elem', rec, Int(0)) and left is not None and left.op == 'from' and left.a[0] is rec:
                R.bad('iterate', s.where, 'records are dropped after the one used', facts_str(st))
            else:
                R.unk('iterate', s.where, 'record %s, left %s' % (pp(r, 3), pp(left, 3) if left is not None else '?'))

    def matching():
        n = 'importer::Subrules::applies_to'
        ana.need_fields('importer::Subrules', 'patterns')
        s = ana.summ(n)
        pats = raw('fld', p0, 'patterns')
        for st, v in s.outs:
            fd = [k for k in st.facts if isinstance(k, T) and k.op == 'found']
            if len(fd) != 1 or v.op != 'int':
                R.unk('pattern', s.where, 'outcome %s' % pp(v, 3))
                continue
            lp = loop_of(fd[0].a[0])
            where = '%s:%s' % lp.where
            lst, start, exact = base_it(lp.it)
            if lst is not None and lst.op in ('take', 'from') and lst.a[0] is pats:
                R.bad('pattern', where, 'not every pattern is looked at: %s' % pp(lst, 3))
                continue
            if lst is pats and len(lp.parts) > 1 and not lp.inits:
                el = raw('elem', pats, raw('k', lp.depth))
                for f, u, ev in lp.parts:
                    ab = [(k, x) for k, x in f if isinstance(k, T) and k.op != 'more']
                    con = [k for k, x in ab if appn(k, 'contains') and x == ('=', 1) and appn(k.a[1], 'to_lowercase', 'to_uppercase') and appn(k.a[1].a[1], 'as_slice') and k.a[1].a[1].a[1] is p1
                           and appn(k.a[2], 'to_lowercase', 'to_uppercase') and k.a[2].a[0] == k.a[1].a[0] and k.a[2].a[1] is el]
                    oth = [k for k, x in ab if k not in con]
                    if con and all(k.op in ('len', 'lt') and num_test(k) or appn(k, 'starts_with', 'ends_with') and k.a[1:] == con[0].a[1:] for k in oth):
                        R.bad('pattern', where, 'a pattern contained in the record is passed over', fstr(f))
            if lst is not pats or len(lp.parts) != 1 or lp.inits:
                R.unk('pattern', where, 'patterns looked at: %s' % pp(lp.it, 3))
                continue
            if start != 0 or not exact:
                R.bad('pattern', where, 'not every pattern is looked at')
                continue
            at = [(k, x) for k, x in lp.parts[0][0] if isinstance(k, T) and k.op != 'more']
            el = raw('elem', pats, raw('k', lp.depth))
            if len(at) != 1 or not at[0][0].op == 'app':
                R.unk('pattern', where, 'test %s' % fstr(lp.parts[0][0]))
                continue
            k, x = at[0]
            nm = str(k.a[0]).split('::')[-1]
            found = E.decide(st, fd[0])
            if x == ('=', 1):
                # goes on while patterns match: all of them have to
                R.bad('pattern', where, 'all patterns have to match, not one of them', fstr(lp.parts[0][0]))
                continue
            if x != ('=', 0):
                R.unk('pattern', where, 'test %s' % fstr(lp.parts[0][0]))
                continue
            R.check(v is Int(1) if found else v is Int(0), 'pattern', s.where, 'a block applies exactly when one of its patterns does', facts_str(st))
            if nm != 'contains':
                (R.bad if nm in ('starts_with', 'ends_with', 'eq', 'eq_ignore_ascii_case') else R.unk)('pattern', where, 'a pattern is tested with `%s`' % nm)
                continue
            A, B = k.a[1], k.a[2]
            low = lambda t: t.a[1] if appn(t, 'to_lowercase', 'to_uppercase') else None
            kind = lambda t: str(t.a[0]).split('::')[-1] if t.op == 'app' else ''
            if B is el or A.op == 'app' and appn(A, 'as_slice'):
                R.bad('pattern', where, 'case is not ignored: %s' % pp(k, 5))
            elif low(A) is None or low(B) is None:
                if appn(A, 'to_ascii_lowercase') or appn(B, 'to_ascii_lowercase'):
                    R.bad('pattern', where, 'case is ignored for plain letters only: %s' % pp(k, 5))
                else:
                    R.unk('pattern', where, 'test %s' % pp(k, 5))
            elif kind(A) != kind(B):
                R.bad('pattern', where, 'record and pattern are put into different case: %s' % pp(k, 5))
            elif low(A) is el and appn(low(B), 'as_slice'):
                R.bad('pattern', where, 'the record is looked for in the pattern: %s' % pp(k, 5))
            elif low(B) is el and appn(low(A), 'as_slice') and low(A).a[1] is p1:
                R.ok('pattern', where, 'the pattern is contained in the record, ignoring case')
            elif low(B) is el and low(A).op in ('fld', 'elem', 'app') and any(y.op in ('elem',) or appn(y, 'get', 'index') for y in walk(low(A))):
                R.bad('pattern', where, 'only %s of the record is looked at' % pp(low(A), 4))
            else:
                R.unk('pattern', where, 'test %s' % pp(k, 5))

    def entry():
        ana.fn('importer::Subrules::applies_to')
        ana.need_fields('importer::Subrules', 'rules')
        ana.need_fields('importer::Rules', 'subrules', 'accounts', 'amount_strs', 'date_str', 'date_format', 'description', 'status', 'payee', 'comment', 'fields', 'decimal_symbol')
        ana.need_fields('entry::Entry', 'date', 'status', 'description', 'payee', 'comment', 'postings')
        vo = V(ana)
        ef = ana.adt('entry::Entry')['variants'][0]['fields']
        stv = [v['name'] for v in ana.adt('entry::EntryStatus')['variants']]
        cpf = ana.adt('posting::ClassicPosting')['variants'][0]['fields']
        AT = 'importer::Subrules::applies_to'
        s = ana.summ(GE, inline=(GE,), opaque=(AT,))
        subs = raw('fld', p0, 'subrules')
        F = lambda x: raw('fld', p0, x)
        # ---------------- the block
        search = None
        for st, v in s.outs:
            for k in st.facts:
                if isinstance(k, T) and k.op == 'found' and any(appn(q, 'applies_to') for f, u, ev in loop_of(k.a[0]).parts for q, _ in f if isinstance(q, T)):
                    search = k
        if search is None:
            raise Unknown('search for a block not recognised')
        lp = loop_of(search.a[0])
        where = '%s:%s' % lp.where
        el = raw('elem', subs, raw('k', lp.depth))
        want = raw('app', AT, el, p1)
        rows = [[(k, x) for k, x in f if isinstance(k, T) and k.op != 'more'] for f, u, ev in lp.parts]
        it = lp.it
        if it.op == 'irev':
            R.bad('block', where, 'blocks are tried from the last to the first')
        elif it.op in ('iskip', 'itake') or it.op in ('it', 'itm') and it.a[1] != 0 and num(it.a[1]) != 0:
            R.bad('block', where, 'not every block is tried')
        elif it.op not in ('it', 'itm') or len(rows) != 1:
            R.unk('block', where, 'search %s' % pp(it, 3))
        elif rows[0] == [(want, ('=', 0))]:
            R.ok('block', where, 'the blocks are tried in order until one applies')
        elif any(k is want and x == ('=', 1) for k, x in rows[0]):
            R.bad('block', where, 'a block that applies is passed over', fstr(lp.parts[0][0]))
        else:
            R.unk('block', where, 'search %s' % rows[0])
        hit = raw('elem', subs, raw('hit', search.a[0]))
        nblock = 0
        ploops = {}
        for st, v in s.outs:
            f = E.decide(st, search)
            facts = facts_str(st, 30)
            if f == 1:
                nblock += 1
                exp = raw('app', GE, raw('fld', hit, 'rules'), p1, p2)
                if v is exp:
                    R.ok('block', s.where, 'the first block that applies decides')
                elif v.op == 'app' and v.a[0] == GE:
                    R.bad('block', s.where, 'the rules used are %s on %s' % (pp(v.a[1], 4), pp(v.a[2], 3)), facts) if v.a[1].op in ('fld', 'sym') and v.a[2] is p1 else R.unk('block', s.where, pp(v, 4))
                elif v.op == 'agg':
                    # the block's own entry built in place
                    if not any(y is hit for y in walk(v)) and is_ok(v):
                        R.bad('block', s.where, 'the general rules are used although a block applies', facts)
                    else:
                        R.unk('block', s.where, pp(v, 3))
                else:
                    R.unk('block', s.where, pp(v, 3))
                continue
            if f is None:
                R.unk('block', s.where, 'not looked for a block in a case: %s' % facts)
                continue
            # ---------------- postings
            pl = None
            for k in st.facts:
                if isinstance(k, T) and k.op == 'found' and any(x[0][0] == PP for f_, u, ev in loop_of(k.a[0]).parts for x in events(ev)):
                    pl = k
            if pl is None:
                if is_ok(v):
                    R.unk('postings', s.where, 'postings not recognised')
                continue
            if E.decide(st, pl) == 1:
                if is_ok(v):
                    R.bad('postings', s.where, 'an entry is made although one of its postings cannot be read', facts)
                continue
            l2 = loop_of(pl.a[0])
            keys = [k for k, i in l2.inits if i.op == 'vec' and not i.a]
            if len(keys) != 1:
                R.unk('postings', '%s:%s' % l2.where, 'postings not recognised')
                continue
            P = raw('loopval', pl.a[0], keys[0])
            ploops[P] = ploops.get(P, []) + [st]
            n_ = raw('len', P)
            e0 = raw('elem', P, Int(0))

            def spec(o):
                if o(Eq(n_, Int(0))):
                    return 'err'
                if not o(Eq(n_, Int(1))):
                    return 'asis'
                if o(vo.classic(e0)):
                    if not o(vo.some(e0)):
                        return 'err'
                    m = vo.mag(e0)
                else:
                    m = raw('fld', raw('fld', raw('fld', e0, 'Envelope.0'), 'amount'), 'mag')
                if o(Lt(m, Int(0))):
                    return 'expenses:unknown'
                if o(Lt(Int(0), m)):
                    return 'income:unknown'
                return 'unknown'
            got = None
            if is_err(v):
                got = 'err'
            elif is_ok(v) and v.a[2].op == 'agg':
                e = dict(zip(ef, v.a[2].a[2:]))
                x = e['postings']
                if x is P:
                    got = 'asis'
                elif x.op in ('butlast', 'from', 'take') and x.a[0] is P:
                    got = 'a posting is left out'
                elif x.op == 'push' and x.a[0] is P and x.a[1].op == 'agg' and x.a[1].a[1] == vo.C.a[0] and x.a[1].a[2].op == 'agg':
                    cp = dict(zip(cpf, x.a[1].a[2].a[2:]))
                    if cp['account'].op == 'str':
                        got = cp['account'].a[0]
                        if not all(y is NONE for fn_, y in cp.items() if fn_ != 'account'):
                            got = 'an amount to ' + got if cp['amount'] is not NONE else None
                parts(st, e, facts)
            for exp, asked, s2 in outcomes(st, spec):
                if got == exp:
                    R.ok('completion', s.where, exp)
                elif got is None or any(any(not num_test(r) for r in related(st, a)) for a, _ in asked if a is not Eq(n_, Int(0)) and a is not Eq(n_, Int(1))) and got != 'asis':
                    R.unk('completion', s.where, 'postings %s' % pp(v, 4))
                else:
                    R.bad('completion', s.where, 'got: %s; expected: %s' % (got, exp), facts)
        if not nblock:
            R.unk('block', s.where, 'no case where a block applies')
        for P, sts in ploops.items():
            building(P, sts)

    inj_seen = {}

    def inj(t, what):
        """Start of an injected text, reporting on how it is injected."""
        r = injected(t)
        if r is None:
            return None
        init, vs, ok = r
        if t not in inj_seen:
            inj_seen[t] = ok
            w = '%s:%s' % loop_of(t.a[1].a[0]).where
            if ok:
                R.ok('fields', w, '%s: every %%field%% is replaced by its column' % what)
            elif ok is False:
                R.bad('fields', w, '%s: fields are not replaced as %%field%% by its column' % what)
            else:
                R.unk('fields', w, '%s: replacement not recognised' % what)
            variables(vs)
        return init

    vars_seen = set()

    def variables(vs):
        if vs in vars_seen:
            return
        vars_seen.add(vs)
        if vs.op != 'loopval':
            R.unk('columns', '-', 'columns %s' % pp(vs, 3))
            return
        lp = loop_of(vs.a[0])
        where = '%s:%s' % lp.where
        phi = raw('phi', lp.depth, vs.a[1])
        it = lp.it
        want = raw('izip', raw('it', raw('fld', p0, 'fields'), 0), raw('it', raw('fields', p1), 0))
        if it is want or it.op == 'izip' and all(a.op == 'it' and (a.a[1] == 0 or num(a.a[1]) == 0) for a in it.a) and it.a[0].a[0] is raw('fld', p0, 'fields') and it.a[1].a[0].op == 'fields':
            R.ok('columns', where, 'the n-th field name stands for the n-th column')
        elif it.op == 'izip' and all(a.op in ('it', 'irev', 'iskip', 'ifilter', 'istep') for a in it.a) and any(y is raw('fld', p0, 'fields') for y in walk(it)) and any(y.op == 'fields' for y in walk(it)):
            R.bad('columns', where, 'field names and columns are paired as %s' % pp(it, 4))
            return
        else:
            R.unk('columns', where, 'columns %s' % pp(it, 3))
            return
        k = raw('k', lp.depth)
        a, b = raw('elem', raw('fld', p0, 'fields'), k), raw('elem', it.a[1].a[0], k)
        for f, u, ev in lp.parts:
            y = dict(u).get(vs.a[1], phi)
            if y.op == 'mput' and y.a[0] is phi and y.a[1] is a and y.a[2] is b:
                R.ok('columns', where, 'a field name stands for the text of its column')
            elif y.op == 'mput' and y.a[0] is phi and (y.a[1] is b or y.a[2] is a or y.a[2].op == 'str' or y.a[2].op == 'app' and y.a[2].a[1] is b and appn(y.a[2], 'to_lowercase', 'to_uppercase', 'replace')):
                R.bad('columns', where, 'a field name stands for %s' % pp(y.a[2], 4), fstr(f))
            elif y.op == 'mput' and appn(y.a[2], 'trim') and y.a[2].a[1] is b:
                R.bad('columns', where, 'a field name stands for the text of its column without the spaces around it', fstr(f))
            elif y is phi:
                has = [q for q, x in f if isinstance(q, T) and q.op == 'has']
                oth = [q for q, x in f if isinstance(q, T) and q.op not in ('has', 'more')]
                (R.unk if not oth else R.bad)('columns', where, 'a column is left out', *(() if not oth else (fstr(f),)))
            else:
                R.unk('columns', where, 'columns become %s' % pp(y, 3))

    seen_parts = set()

    def parts(st, e, facts):
        F = lambda x: raw('fld', p0, x)
        w = 'importer::Rules::get_entry_from_record'
        # date
        d = e['date']
        if d.op == 'fld' and d.a[1] == 'Ok.0' and appn(d.a[0], 'parse_from_str'):
            x = inj(d.a[0].a[1], 'date')
            if x is not None and x is not F('date_str'):
                (R.bad if x.op == 'fld' else R.unk)('parts', w, 'the date comes from %s' % pp(x, 4))
            elif x is not None:
                R.ok('parts', w, 'the date comes from the date rule')
            elif cut_injected(d.a[0].a[1]):
                R.bad('parts', w, 'the date is read from only part of its text, or another one: %s' % pp(d.a[0].a[1], 4), facts)
        # texts
        for f, opt in (('description', False), ('payee', True), ('comment', True)):
            x = e[f]
            src = F(f)
            if opt:
                blank = E.decide(st, Eq(raw('len', app_trim(src)), Int(0)))
                if x is NONE:
                    if blank == 1:
                        R.ok('parts', w, 'no %s' % f)
                    elif any(isinstance(k, T) and k.op == 'len' and injected(k.a[0]) is not None and injected(k.a[0])[0] is src and z == ('=', 0) for k, z in st.facts.items()):
                        R.ok('parts', w, 'no %s' % f)
                    elif blank == 0 and not any(isinstance(k, T) and k.op != 'found' and any(y is src for y in walk(k)) and k is not raw('len', app_trim(src)) for k in st.facts):
                        R.bad('parts', w, 'the %s of the rules is left out' % f, facts)
                    elif blank == 0 and all(k is raw('len', app_trim(src)) or k.op == 'eq' and k.a[0].op == 'fld' and k.a[1].op == 'fld' and k.a[0].a[0] is p0 and k.a[1].a[0] is p0
                                            for k in st.facts if isinstance(k, T) and k.op != 'found' and any(y is src for y in walk(k))):
                        R.bad('parts', w, 'the %s of the rules is left out where it is the same as another setting, or differs' % f, facts)
                    elif blank is None and not related(st, Eq(src, Str(''))) :
                        R.bad('parts', w, 'the %s of the rules is left out' % f, facts)
                    else:
                        R.unk('parts', w, 'no %s in a case' % f)
                    continue
                if x.op == 'agg' and x.a[0] == OPT and len(x.a) == 3:
                    x = x.a[2]
                else:
                    R.unk('parts', w, '%s is %s' % (f, pp(x, 3)))
                    continue
            y = inj(x, f)
            if y is src:
                R.ok('parts', w, 'the %s comes from its rule' % f)
            elif y is not None and y.op == 'fld' and y.a[0] is p0:
                R.bad('parts', w, 'the %s comes from the setting %s' % (f, y.a[1]), facts)
            elif x is src:
                R.bad('parts', w, 'the fields in the %s are not replaced' % f, facts)
            elif x.op == 'fld' and x.a[0] is p0:
                R.bad('parts', w, 'the %s comes from the setting %s' % (f, x.a[1]), facts)
            elif cut_injected(x):
                R.bad('parts', w, 'the %s is only part of its text, or another one: %s' % (f, pp(x, 4)), facts)
            else:
                R.unk('parts', w, '%s is %s' % (f, pp(x, 4)))
        # status
        sv = e['status']
        if sv.op == 'agg':
            stv = [v['name'] for v in ana.adt('entry::EntryStatus')['variants']]
            for k, z in st.facts.items():
                if isinstance(k, T) and k.op == 'app' and z[0] == '=' and injected(k) is not None:
                    txt = z[1].a[0] if isinstance(z[1], T) else z[1]
                    i = inj(k, 'status')
                    if i is F('status'):
                        exp = {'?': 'Pending', '~': 'Cleared', '*': 'Reconciled'}.get(txt)
                        if exp and exp in stv:
                            R.check(stv[sv.a[1]] == exp, 'parts', w, 'status %s' % txt, facts)
                elif isinstance(k, T) and k.op == 'app' and z[0] == '!' and injected(k) is not None and injected(k)[0] is F('status') and {x.a[0] if isinstance(x, T) else x for x in z[1]} >= {'?', '~', '*'}:
                    R.bad('parts', w, 'a status that is none of those known becomes %s' % stv[sv.a[1]], facts)

    def app_trim(x):
        from ..models import trim
        return trim('trim', x)

    def building(P, sts):
        lp = loop_of(P.a[0])
        where = '%s:%s' % lp.where
        acc, amt = raw('fld', p0, 'accounts'), raw('fld', p0, 'amount_strs')
        lst, start, exact = base_it(lp.it)
        phi = raw('phi', lp.depth, P.a[1])
        if lst is not None and lst.op in ('take', 'from') and lst.a[0].op == 'entries' and leaves_out(lp.it):
            R.bad('postings', where, 'not every account rule gives a posting: %s' % pp(lp.it, 3))
            return
        if lst is None or lst.op != 'entries':
            R.unk('postings', where, 'postings from %s' % pp(lp.it, 3))
            return
        A = lst.a[0]
        root = A.a[0] if A.op == 'mput' else A
        if root is not acc:
            (R.bad if root is amt else R.unk)('postings', where, 'one posting for each of %s' % pp(root, 3))
            return
        if start != 0 or not exact:
            R.bad('postings', where, 'not every account rule gives a posting')
        for st in sts[:1]:
            e = E.decide(st, Eq(raw('len', acc), Int(0)))
            if e is None and all(num_test(r) for r in related(st, Eq(raw('len', acc), Int(0)))):
                R.bad('postings', where, 'with account rules and without, they are taken to be %s' % pp(A, 4), facts_str(st))
            elif e is not None and (A is acc) == (e == 0):
                R.ok('postings', where, 'one posting for each account rule')
            elif e is None:
                R.unk('postings', where, 'accounts %s' % pp(A, 3))
            else:
                R.bad('postings', where, 'the account rules are taken to be %s' % pp(A, 4), facts_str(st))
        key = raw('elem', raw('keys', A), raw('k', lp.depth))
        for f, u, ev in lp.parts:
            y = dict(u).get(P.a[1], phi)
            if y is phi:
                R.bad('postings', where, 'an account rule gives no posting', fstr(f)) if not any(isinstance(k, T) and k.op in ('lt', 'eq', 'app') for k, _ in f) else R.unk('postings', where, 'an account rule gives no posting in a case: %s' % fstr(f))
                continue
            if not (y.op == 'push' and y.a[0] is phi and y.a[1].op == 'fld' and y.a[1].a[1] == 'Ok.0' and y.a[1].a[0].op == 'app' and y.a[1].a[0].a[0] == PP):
                R.unk('postings', where, 'postings become %s' % pp(y, 4))
                continue
            call = y.a[1].a[0]
            x = inj(call.a[1], 'posting')
            if x is None:
                if all(z.op in ('cat', 'at', 'str', 'elem', 'keys', 'k', 'fld', 'sym', 'mput') for z in walk(call.a[1])) and any(z is raw('at', A, key) for z in walk(call.a[1])):
                    R.bad('postings', where, 'the fields in a posting are not replaced: %s' % pp(call.a[1], 4), fstr(f))
                elif cut_injected(call.a[1]):
                    R.bad('postings', where, 'a posting is read from only part of its text, or another one: %s' % pp(call.a[1], 4), fstr(f))
                else:
                    R.unk('postings', where, 'posting read from %s' % pp(call.a[1], 4))
                continue
            M = None
            for z in walk(x):
                if z.op == 'at' and z.a[0] is not A:
                    M = z.a[0]
            for k, _ in f:
                if isinstance(k, T) and k.op == 'has':
                    M = M or k.a[0]
            if M is None:
                if x is raw('at', A, key):
                    R.bad('postings', where, 'a posting is made without its amount', fstr(f))
                else:
                    R.unk('postings', where, 'posting read from %s' % pp(x, 4))
                continue
            if (M.a[0] if M.op == 'mput' else M) is not amt:
                R.unk('postings', where, 'amounts %s' % pp(M, 3))
                continue

            def spec(o):
                if o(raw('has', M, key)):
                    return cat(raw('at', A, key), Str(' '), raw('at', M, key))
                return raw('at', A, key)
            for exp, asked, s2 in outcomes(fstate(f), spec):
                if x is exp:
                    R.ok('postings', where, 'account and amount of the same number')
                elif all(z.op in ('cat', 'at', 'str', 'elem', 'keys', 'k', 'fld', 'sym', 'mput') for z in walk(x)):
                    R.bad('postings', where, 'a posting is made from %s where %s is meant' % (pp(x, 5), pp(exp, 5)), fstr(f))
                else:
                    R.unk('postings', where, 'posting read from %s' % pp(x, 4))

    def files():
        n = 'importer::CsvImporter::from_file'
        W = 'importer::CsvImporter::from_file_with_rules'
        s = ana.summ(n, inline=(n,), opaque=(W,))
        for st, v in s.outs:
            if v.op == 'app' and v.a[0] == W:
                x = v.a[2]
                if x.op == 'app' and str(x.a[0]).split('::')[-1] in ('with_extension', 'set_extension'):
                    R.bad('rules-file', s.where, 'the rules file is %s, not the CSV file\'s name with .rules added' % pp(x, 4))
                elif v.a[1] is p0 and x.op == 'cat':
                    R.check(x is cat(p0, Str('.rules')), 'rules-file', s.where, 'the rules file is %s' % pp(x, 4)) if all(y is p0 or y.op == 'str' for y in x.a) else R.unk('rules-file', s.where, pp(x, 4))
                else:
                    R.unk('rules-file', s.where, 'rules file %s' % pp(x, 4))
        s = ana.summ('ledger::Ledger::import_csv', inline=('ledger::Ledger::import_csv',))
        for st, v in s.outs:
            ev = [e for e, il, f in events(st.ev) if e[0] in (n, W)]
            if len(ev) != 1:
                R.unk('rules-file', s.where, '%d importers' % len(ev))
                continue
            e = ev[0]
            g = E.decide(st, Eq(discr(p2), Int(1)))
            if e[0] == W:
                if g == 1:
                    R.check(e[1] is p1 and e[2] is payload(p2), 'rules-file', evline(e), 'the rules file given is used', facts_str(st)) if e[2].op in ('fld', 'sym') else R.unk('rules-file', evline(e), pp(e[2], 4))
                else:
                    R.unk('rules-file', evline(e), 'rules file %s' % pp(e[2], 4))
            elif g == 1:
                R.bad('rules-file', evline(e), 'the rules file given is ignored', facts_str(st))
            elif g == 0:
                R.check(e[1] is p1, 'rules-file', evline(e), 'the CSV file given is imported', facts_str(st)) if e[1].op in ('fld', 'sym') else R.unk('rules-file', evline(e), pp(e[1], 4))
        s = ana.summ(W, inline=(W,), opaque=('importer::CsvImporter::from_strs',))
        rd = lambda x: payload_ok(raw('app', 'std::fs::read_to_string', x))
        for st, v in s.outs:
            if v.op == 'app' and v.a[0] == 'importer::CsvImporter::from_strs':
                if v.a[1] is rd(p0) and v.a[2] is rd(p1):
                    R.ok('rules-file', s.where, 'records from the CSV file, rules from the rules file')
                elif v.a[1] is rd(p1) or v.a[2] is rd(p0):
                    R.bad('rules-file', s.where, 'the two files are mixed up', facts_str(st))
                else:
                    R.unk('rules-file', s.where, pp(v, 4))

    R.section('records', reader)
    R.section('iterate', nexts)
    R.section('pattern', matching)
    R.section('entry', entry)
    R.section('files', files)
    R.section('blocks', lambda: rulefile.check(ana, R, 'blocks'))
