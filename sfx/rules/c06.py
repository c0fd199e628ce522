"""Every posting names an account defined before it.

Partitions of the posting parser: every partition that returns a posting has
tested the account it stores for membership in the set it was given. Value flow
above it: an entry holds exactly postings the parser returned for that set, the
journal reader hands over the accounts defined so far, and the accounts change
only by an account definition."""
from ..base import *

PP, EP, AP = 'posting::Posting::parse', 'entry::Entry::parse', 'account::Account::parse'
GE = 'importer::Rules::get_entry_from_record'


def posting_account(ana, v):
    """Account term of a built posting."""
    if v.op == 'agg' and v.a[0].endswith('posting::Posting') and len(v.a) == 3:
        x = v.a[2]
        var = ana.adt('posting::Posting')['variants'][v.a[1]]['name']
        adt, fld_ = {'Classic': ('posting::ClassicPosting', 'account'), 'Envelope': ('posting::EnvelopePosting', 'account_name')}.get(var, (None, None))
        if adt is None:
            return var, None
        if x.op == 'agg':
            fs = ana.adt(adt)['variants'][0]['fields']
            if fld_ in fs:
                return var, x.a[2 + fs.index(fld_)]
        return var, None
    return None, None


def set_params(ana, inst):
    """Parameters holding a set of names."""
    out = []
    for i in range(inst['body']['argc']):
        t = ana.p.ty(inst['body']['locals'][i + 1])
        while t['k'] == 'ref':
            t = ana.p.ty(t['e'])
        if t['k'] == 'adt' and (t['name'].endswith('Set') or t['name'].endswith('Map')):
            out.append(Sym('P%d' % i))
    return out


def same_accounts(t, acc):
    """Is t (as a set) contained in the keys of acc?  True / False / None"""
    if t is acc:
        return True
    if t.op in ('setof', 'list', 'keys', 'mapof'):
        return same_accounts(t.a[0], acc) if isinstance(t.a[0], T) else None
    if t.op == 'it':
        return same_accounts(t.a[0], acc)
    if t.op in ('sorted', 'reversed', 'from'):
        return same_accounts(t.a[0], acc)
    if t.op == 'concat':
        r = [same_accounts(x, acc) for x in t.a]
        return True if all(x is True for x in r) else False if any(x is False for x in r) else None
    if t.op in ('vec', 'emptymap'):
        return not t.a
    if t.op == 'mput':
        r = same_accounts(t.a[0], acc)
        return None if r is None else False
    if t.op == 'loopval':
        c = comp(t)
        if c:
            a, b = same_accounts(c.init, acc), same_accounts(c.src[0], acc) if c.src[0] is not None else None
            if a and b and all(x.op == 'elem' and x.a[0] is c.src[0] or x.op == 'elem' and same_accounts(x.a[0], acc) for f, r in c.rows for k, x in r if k == 'elem'):
                return True
    return None


def run(ana, R):
    def parser():
        s = ana.summ(PP, inline=(PP,))
        sets = set_params(ana, s.inst)
        if not sets:
            raise Missing('a set parameter of ' + PP)
        n = 0
        for st, v in s.outs:
            if is_err(v):
                continue
            if not is_ok(v):
                R.unk('account-tested', s.where, 'result %s' % pp(v, 3))
                continue
            var, a = posting_account(ana, v.a[2])
            if a is None:
                R.unk('account-tested', s.where, 'posting %s' % pp(v.a[2], 3))
                continue
            n += 1
            mem, other = memberships(st.facts)
            vals = [x for m, k, x, _ in mem if k is a]
            w = '%s (%s posting)' % (s.where, var.lower())
            fuzzy = [k for k, src, at in other if at is not None and len(at) == 1 and at[0][0].op == 'app'
                     and at[0][0].a[0] in ('str::starts_with', 'str::ends_with', 'str::contains', 'str::eq_ignore_ascii_case') and src in sets]
            if any(k is a and x == 1 and m in sets for m, k, x, _ in mem):
                R.ok('account-tested', w, 'the account is in the set of defined accounts')
            elif any(m not in sets for m, k, x, _ in mem) or any(src in sets for k, src, at in other if k not in fuzzy):
                R.unk('account-tested', w, 'membership in a form not recognised')
            elif elsewhere():
                R.unk('account-tested', w, 'accounts are tested elsewhere')
            elif any(x == 0 for x in vals):
                R.bad('account-tested', w, 'a %s posting is accepted although its account is not defined' % var.lower(), facts_str(st))
            elif mem:
                R.bad('account-tested', w, 'a %s posting is accepted with account %s although only %s was looked up' % (var.lower(), pp(a, 4), '; '.join(pp(k[1], 4) for k in mem)), facts_str(st))
            else:
                R.bad('account-tested', w, 'a %s posting is accepted without looking up its account' % var.lower(), facts_str(st))
        if not n:
            R.unk('account-tested', s.where, 'no accepted posting found')

    def elsewhere():
        for n in (EP, 'ledger::Ledger::parse_chunk'):
            s = ana.summ(n, inline=(n,), opaque=('add_from_file',))
            for st, v in s.outs:
                for e, _, f in list(events(st.ev)):
                    if any(isinstance(k, T) and k.op == 'has' and any(x.op == 'app' and x.a[0] in (PP, EP) for x in walk(k)) for k, _ in f):
                        return True
                if any(isinstance(k, T) and k.op == 'has' and any(x.op == 'app' and x.a[0] in (PP, EP) for x in walk(k)) for k in st.facts):
                    return True
        return False

    def calls(s, what, setterm):
        n = 0
        seen = set()
        for st, v in s.outs:
            for e, _, _ in events(st.ev):
                if e[0] in what and e[:-1] not in seen:
                    seen.add(e[:-1])
                    n += 1
                    inst = ana.fn(e[0])
                    for p in set_params(ana, inst):
                        i = int(p.a[0][1:])
                        arg = e[1 + i]
                        r = setterm(arg)
                        if r is None:
                            R.unk('set-handed-over', evline(e), '%s gets %s' % (e[0], pp(arg, 5)))
                        else:
                            R.check(r, 'set-handed-over', evline(e), '%s gets %s' % (e[0], pp(arg, 5)), facts_str(st))
        if not n:
            R.unk('set-handed-over', s.where, 'no call of %s' % ', '.join(what))

    def entry():
        s = ana.summ(EP, inline=(EP,))
        sets = set_params(ana, s.inst)
        calls(s, (PP,), lambda t: True if t in sets else None)
        fs = ana.adt('entry::Entry')['variants'][0]['fields']
        for st, v in s.outs:
            if not is_ok(v):
                continue
            ps = v.a[2].a[2 + fs.index('postings')] if v.a[2].op == 'agg' else None
            postings_ok(s, st, ps)

    def postings_ok(s, st, ps):
        if ps is None:
            return R.unk('postings-parsed', s.where, 'entry not built here')
        while ps.op == 'sorted':
            ps = ps.a[0]
        elems = []
        if ps.op == 'vec':
            elems = list(ps.a)
        else:
            base = ps
            while base.op == 'push':
                elems.append(base.a[1])
                base = base.a[0]
            c = comp(base)
            if c is None or not (c.init.op == 'vec'):
                if base.op == 'vec':
                    elems += list(base.a)
                else:
                    return R.unk('postings-parsed', s.where, 'postings %s' % pp(ps, 4))
            else:
                elems += list(c.init.a)
                for f, r in c.rows:
                    for k, x in r:
                        if k != 'elem':
                            return R.unk('postings-parsed', s.where, 'postings %s' % pp(x, 4))
                        elems.append(x)
        for x in elems:
            b = x
            while b.op == 'fld':
                b = b.a[0]
            if b.op == 'app' and b.a[0] == PP:
                R.ok('postings-parsed', s.where, 'posting from the posting parser')
            elif x.op == 'agg' and s.name == EP:
                R.bad('postings-parsed', s.where, 'an entry gets a posting that was not looked up: %s' % pp(x, 4), facts_str(st))
            elif x.op == 'agg':
                pass    # completed postings of an import are read back before they are written (C05)
            else:
                R.unk('postings-parsed', s.where, 'posting %s' % pp(x, 4))

    def ledger():
        n = 'ledger::Ledger::parse_chunk'
        s = ana.summ(n, inline=(n,), opaque=('add_from_file',))
        ana.need_fields('ledger::Ledger', 'accounts', 'entries')
        acc = raw('fld', Sym('P0'), 'accounts')
        calls(s, (EP,), lambda t: same_accounts(t, acc))
        fs = ana.adt('ledger::Ledger')['variants'][0]['fields']
        for st, v in s.outs:
            m = ana.mem(st, 0)
            if m is None or m is Sym('P0') or m.op != 'agg':
                if m is not None and m.op == 'agg' or m is Sym('P0'):
                    pass
                continue
            a = m.a[2 + fs.index('accounts')]
            if a is acc:
                R.ok('accounts-defined', s.where, 'accounts unchanged')
                continue
            if a.op == 'mput' and a.a[0] is acc:
                b = a.a[2]
                while b.op == 'fld':
                    b = b.a[0]
                if b.op == 'app' and b.a[0] == AP:
                    R.ok('accounts-defined', s.where, 'an account definition adds its account')
                else:
                    R.bad('accounts-defined', s.where, 'an account is added without an account definition', facts_str(st))
            elif any(x.op == 'mput' and x.a[0].op != 'loopval' and not any(y.op == 'app' and y.a[0] == AP for y in walk(x.a[2]))
                     and not any(y.op == 'post' for y in walk(x.a[2])) for x in walk(a)):
                R.unk('accounts-defined', s.where, 'accounts %s' % pp(a, 4))
            else:
                R.ok('accounts-defined', s.where, 'only existing accounts change')

    def importer():
        n = 'ledger::Ledger::import_csv'
        s = ana.summ(n, inline=(n,))
        acc = raw('fld', Sym('P0'), 'accounts')

        def from_accounts(t):
            r = same_accounts(t, acc)
            return r
        # the accounts the importer is created with, and the ones used to read its entries back
        for st, v in s.outs:
            for e, _, _ in events(st.ev):
                if e[0].startswith('importer::CsvImporter::from_file'):
                    r = from_accounts(e[-2])
                    if r is None:
                        R.unk('set-handed-over', evline(e), '%s gets %s' % (e[0], pp(e[-2], 5)))
                    else:
                        R.check(r, 'set-handed-over', evline(e), '%s gets %s' % (e[0], pp(e[-2], 5)))
        g = ana.summ(GE, inline=(GE,))
        sets = set_params(ana, g.inst)
        calls(g, (PP,), lambda t: True if t in sets else None)

    R.section('account-tested', parser)
    R.section('postings-parsed', entry)
    R.section('set-handed-over', ledger)
    R.section('set-handed-over', importer)
