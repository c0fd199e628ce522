"""An entry needs a date and a status, and statuses mean what they say.

Value flow from the header line to the accepted entry: in every partition of
the entry reader that accepts, the date is the first word read in the journal's
format and the status is decided by the second word being exactly one of the
three marks. The reading and writing tables of statuses are compared mark by
mark, and the status of imported entries goes through the same table."""
from ..base import *

TABLE = {'?': 'Pending', '~': 'Cleared', '*': 'Reconciled'}
PEEL = ('utils::remove_comments', 'trim', 'trim_start', 'trim_end')


def peel(t):
    while True:
        if t.op == 'app' and t.a[0] in PEEL:
            t = t.a[1]
        else:
            return t


def hdr_word(t, text):
    """Index of a word of the first line of `text`, or None."""
    if t.op == 'elem' and t.a[1].op == 'int' and t.a[0].op == 'words':
        l = peel(t.a[0].a[0])
        if l.op == 'elem' and l.a[1] is Int(0) and l.a[0].op == 'lines' and peel(l.a[0].a[0]) is text:
            return t.a[1].a[0]
        if l is text:
            return t.a[1].a[0]
    return None


def exactly(st, w, marks):
    """The mark w is known to be, or (None, why)."""
    for m in marks:
        if E.decide(st, Eq(w, Str(m))) == 1:
            return m, ''
    about = [k for k in st.facts if isinstance(k, T) and any(y is w for y in walk(k))]
    chars = [k for k in about if k is not w and k.op not in ('len',)]
    v = st.facts.get(w)
    if v and v[0] == 'in':
        return None, 'one of %s' % ' '.join(sorted(str(x.a[0] if isinstance(x, T) else x) for x in v[1]))
    first = None
    for k in about:
        x = st.facts[k]
        if x[0] == '=' and k.op == 'elem' and k.a[0].op == 'chars' and k.a[0].a[0] is w and k.a[1] is Int(0):
            c = x[1].a[0] if isinstance(x[1], T) else x[1]
            first = chr(c) if isinstance(c, int) else c
    if first is not None:
        n = raw('len', raw('chars', w))
        if E.decide(st, Lt(Int(1), n)) == 0 or E.decide(st, Eq(n, Int(1))) == 1 or E.decide(st, Eq(raw('len', w), Int(1))) == 1:
            return first, ''
        if not any(y.op == 'len' for k in about for y in walk(k)):
            return None, 'anything beginning with %s' % first
        return None, None
    for k in about:
        x = st.facts[k]
        m = x[1].a[0] if isinstance(x[1], T) else x[1]
        if x[0] == '=' and isinstance(m, str) and m in marks and k is not w:
            path = []
            y = k
            while y is not w:
                path.append(y)
                y = [z for z in y.a if isinstance(z, T) and any(q is w for q in walk(z))][0]
            lossy = [y for y in path if y.op == 'app' and y.a[0].split('::')[-1] in ('trim_start_matches', 'trim_end_matches', 'trim_matches', 'replace', 'replacen')]
            if lossy:
                return None, 'anything for which %s is `%s`' % (pp(k, 4), m)
            ch = [y for y in path if y.op == 'elem' and y.a[0].op == 'chars' and y.a[1] is Int(0)]
            if ch:
                n = raw('len', ch[0].a[0])
                if E.decide(st, Lt(Int(1), n)) == 0:
                    return m, ''
                if not any(q is n or q is raw('len', w) for z in about for q in walk(z) if z is not Lt(Int(0), n)):
                    return None, 'anything beginning with %s' % m
    pre = [k for k in about if k.op == 'app' and k.a[0] in ('str::starts_with', 'str::ends_with', 'str::contains') and k.a[1] is w and st.facts[k] == ('=', 1)]
    if pre and not any(y.op == 'len' for k in about for y in walk(k)):
        return None, 'any word for which %s' % pp(pre[0], 4)
    # an unmarked word: nothing was demanded of it, or only that it is not one of the marks
    if not about or all(k is w or k.op == 'lt' or k.op == 'len' for k in about) and (v is None or v[0] == '!'):
        return None, 'any word' + (' other than %s' % ' '.join(sorted(str(x.a[0] if isinstance(x, T) else x) for x in v[1])) if v else '')
    return None, None


def run(ana, R):
    ana.need_fields('entry::Entry', 'date', 'status')
    ad = ana.adt('entry::EntryStatus')
    vs = [v['name'] for v in ad['variants']]
    if set(vs) != set(TABLE.values()):
        raise Missing('variants of EntryStatus')
    ef = ana.adt('entry::Entry')['variants'][0]['fields']

    def field(v, f):
        return v.a[2 + ef.index(f)]

    def variant(t):
        return vs[t.a[1]] if t.op == 'agg' and 'EntryStatus' in str(t.a[0]) else None

    def status(st, v, w, rule, where):
        """The status of an accepted entry against the word that decides it."""
        s = variant(v)
        if s is None:
            return R.unk(rule, where, 'status %s' % pp(v, 4))
        m, why = exactly(st, w, TABLE)
        if m is not None:
            R.check(TABLE.get(m) == s, rule, where, '`%s` is read as %s' % (m, s.lower()), facts_str(st))
        elif why:
            R.bad(rule, where, 'an entry is accepted as %s with %s for a status' % (s.lower(), why), facts_str(st))
        else:
            R.unk(rule, where, 'condition on the status word not recognised')

    def header():
        n = 'entry::Entry::parse'
        s = ana.summ(n, inline=(n,))
        text, fmt = Sym('P0'), Sym('P1')
        hit = set()
        sure = [True]
        for st, v in s.outs:
            if not is_ok(v):
                continue
            e = v.a[2]
            if e.op != 'agg':
                R.unk('header-date', s.where, 'entry %s' % pp(e, 3))
                continue
            d = field(e, 'date')
            if d.op == 'fld' and d.a[0].op == 'app' and d.a[0].a[0].endswith('parse_from_str'):
                i = hdr_word(d.a[0].a[1], text)
                if i is None:
                    R.unk('header-date', s.where, 'date read from %s' % pp(d.a[0].a[1], 4))
                else:
                    R.check(i == 0, 'header-date', s.where, 'the date is word %d of the header' % (i + 1), facts_str(st))
                w0, f0 = d.a[0].a[1], d.a[0].a[2]
                if f0 is fmt:
                    R.ok('header-date', s.where, 'the date is read in the format of the journal')
                elif f0.op == 'str':
                    R.bad('header-date', s.where, 'the date is read in the format `%s`, not that of the journal' % f0.a[0], facts_str(st))
                else:
                    R.unk('header-date', s.where, 'format %s' % pp(f0, 4))
            else:
                w0 = None
                if not any(y.op == 'app' and 'parse' in str(y.a[0]) for y in walk(d)):
                    R.bad('header-date', s.where, 'an entry is accepted with %s for a date' % pp(d, 4), facts_str(st))
                else:
                    R.unk('header-date', s.where, 'date %s' % pp(d, 4))
            w = None
            if w0 is not None and hdr_word(w0, text) is not None:
                w = raw('elem', w0.a[0], Int(1))
            else:
                c = set(y for k in st.facts if isinstance(k, T) for y in walk(k) if hdr_word(y, text) == 1)
                w = c.pop() if len(c) == 1 else None
            if w is None:
                R.unk('header-status', s.where, 'no status word')
                continue
            other = set(y for k in st.facts if isinstance(k, T) for y in walk(k) if y.op == 'elem' and hdr_word(y, text) not in (None, 0, 1))
            m, why = exactly(st, w, TABLE)
            if m is None and why and why.startswith('any word') and other:
                # decided by another word of the header
                o = [x for x in other if exactly(st, x, TABLE)[0]]
                if o:
                    R.bad('header-status', s.where, 'the status is taken from word %d of the header' % (hdr_word(o[0], text) + 1), facts_str(st))
                    continue
            status(st, field(e, 'status'), w, 'header-status', s.where)
            if m and variant(field(e, 'status')):
                hit.add(m)
            else:
                sure[0] = False
        for m in TABLE:
            if m not in hit and sure[0]:
                # is there a partition that rejects the mark outright?
                R.bad('header-status', s.where, 'no entry with the status `%s` is ever accepted' % m)

    def tables():
        n = '<entry::EntryStatus as std::str::FromStr>::from_str'
        s = ana.summ(n)
        w = Sym('P0')
        for st, v in s.outs:
            if is_ok(v):
                status(st, v.a[2], w, 'status-read', s.where)
            elif is_err(v):
                m, why = exactly(st, w, TABLE)
                if m:
                    R.bad('status-read', s.where, '`%s` is rejected' % m, facts_str(st))
                else:
                    R.ok('status-read', s.where, 'other words are rejected')
        inv = dict((b, a) for a, b in TABLE.items())
        for n, val in (('<entry::EntryStatus as std::fmt::Display>::fmt', lambda st, v: ana.mem(st, 1)), ('entry::EntryStatus::to_char', lambda st, v: v)):
            s = ana.summ(n)
            for st, v in s.outs:
                i = st.facts.get(discr(Sym('P0')))
                x = val(st, v)
                if x is not None and x.op == 'cat' and x.a[0] is Sym('P1'):
                    x = x.a[1] if len(x.a) == 2 else None
                if x is not None and x.op in ('int', 'char'):
                    x = Str(chr(x.a[0]) if isinstance(x.a[0], int) else x.a[0])
                if i is None or i[0] != '=' or x is None or x.op != 'str':
                    R.unk('status-written', s.where, 'written as %s' % (pp(x, 4) if x is not None else '?'))
                    continue
                k = i[1].a[0] if isinstance(i[1], T) else i[1]
                name = [a for j, a in enumerate(vs) if E.ENUM_DISCR.get(('silverfox::entry::EntryStatus', j), j) == k]
                if not name:
                    continue
                R.check(x.a[0] == inv[name[0]], 'status-written', s.where, '%s is written as `%s`' % (name[0].lower(), x.a[0]), facts_str(st))

    def imported():
        n = 'importer::Rules::get_entry_from_record'
        s = ana.summ(n, inline=(n,))
        for st, v in s.outs:
            if not is_ok(v) or v.a[2].op != 'agg':
                continue
            stt = field(v.a[2], 'status')
            if variant(stt) is None:
                R.unk('import-status', s.where, 'status %s' % pp(stt, 4))
                continue
            src = [k for k, x in st.facts.items() if isinstance(k, T) and x[0] == '=' and isinstance(x[1], (T, str)) and k.op not in ('discr', 'len', 'found')
                   and (x[1].a[0] if isinstance(x[1], T) else x[1]) in TABLE]
            if len(src) == 1:
                status(st, stt, src[0], 'import-status', s.where)
            elif not src:
                tx = [y for k in st.facts if isinstance(k, T) for y in walk(k) if y is raw('fld', Sym('P0'), 'status')]
                if not tx:
                    lp = [y for k in st.facts if isinstance(k, T) for y in walk(k) if y.op == 'loopval' and any(i is raw('fld', Sym('P0'), 'status') for _, i in loop_of(y.a[0]).inits)]
                    tx = lp
                if tx:
                    R.bad('import-status', s.where, 'an imported entry is accepted as %s whatever its status is' % variant(stt).lower(), facts_str(st)) if not any(
                        isinstance(k, T) and any(y in tx for y in walk(k)) and st.facts[k][0] == '=' for k in st.facts) else R.unk('import-status', s.where, 'condition not recognised')
                else:
                    R.unk('import-status', s.where, 'the status rule is not used')
            else:
                R.unk('import-status', s.where, 'several status words')

    R.section('header', header)
    R.section('tables', tables)
    R.section('imported', imported)
