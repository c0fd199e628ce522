"""Every command does what its name says on the chosen journal.

Partition tables of the command-line reader (one row per flag: which value each
flag sets, from which word, and which it leaves alone), of the command letters,
and of the dispatcher (which journal is loaded, which report runs on it with
which arguments), each compared with the specification case by case."""
from ..base import *

LETTER = {'s': 'Summary', 'b': 'Balance', 'e': 'Envelopes', 'r': 'Register', 'i': 'Import', 'n': 'New'}
FLAG = {'-f': 'file_path', '--file': 'file_path', '--csv-file': 'csv_file', '--csv': 'csv_file',
        '--rules-file': 'rules_file', '--rules': 'rules_file', '-n': 'no_move', '--no-move': 'no_move'}
L = 'ledger::Ledger::'
REPORT = {'Balance': L + 'display_flat_balance', 'Envelopes': L + 'display_envelopes', 'Register': L + 'display_register', 'Import': L + 'import_csv'}


def words_of(facts, w):
    """('in', {..}) | ('not', {..}) | None: what a word is known to be."""
    v = dict(facts).get(w) if not isinstance(facts, dict) else facts.get(w)
    if v is None:
        return None
    one = lambda x: x.a[0] if isinstance(x, T) else x
    if v[0] == '=':
        return 'in', {one(v[1])}
    if v[0] == 'in':
        return 'in', set(one(x) for x in v[1])
    return 'not', set(one(x) for x in v[1])


def skipped_word(x):
    """what comes n >= 1 words after the next"""
    while x.op == 'app' and len(x.a) == 2 and isinstance(x.a[1], T):
        x = x.a[1]
    if x.op == 'fld' and x.a[1] == 'Some.0':
        x = x.a[0]
    n = x.a[1] if x.op == 'nth' else x.a[2] if x.op == 'app' and str(x.a[0]).split('::')[-1] == 'nth' and len(x.a) == 3 else None
    return n is not None and (num(n) or 0) >= 1


def other_letter(st, w):
    """a letter of the word, not its first, that is compared on this path"""
    for q, v in st.facts.items():
        if isinstance(q, T) and v[0] == '=':
            x = q.a[0] if q.op == 'fld' and q.a[1] == 'Some.0' else q
            if x.op in ('nth', 'lastof', 'elem') and isinstance(x.a[0], T):
                src = x.a[0]
                while src.op in ('it', 'drive', 'rev') and isinstance(src.a[0], T):
                    src = src.a[0]
                if src.op == 'chars' and src.a[0] is w and (x.op == 'lastof' or x.op == 'nth' and (num(x.a[1]) or 0) >= 1 or x.op == 'elem' and x.a[1].op != 'int' and 'len' in pp(x.a[1]) or x.op == 'elem' and (num(x.a[1]) or 0) >= 1):
                    return q
    return None


def run(ana, R):
    ana.need_fields('flags::CommandFlags', 'file_path', 'subcommand', 'no_move', 'csv_file', 'rules_file')
    cf = ana.adt('flags::CommandFlags')['variants'][0]['fields']
    vs = [v['name'] for v in ana.adt('flags::Subcommand')['variants']]
    argv = None

    def letters():
        n = '<flags::Subcommand as std::convert::TryFrom<&str>>::try_from'
        s = ana.summ(n)
        w = Sym('P0')
        c0 = raw('elem', raw('chars', w), Int(0))
        seen, sure = set(), True
        for st, v in s.outs:
            k = words_of(st.facts, c0)
            cs = set(chr(x) if isinstance(x, int) else x for x in k[1]) if k and k[0] == 'in' else None
            whole = words_of(st.facts, w)
            if cs is None and whole and whole[0] == 'in':
                cs = set(x[:1] for x in whole[1])
            if is_ok(v) and v.a[2].op == 'agg':
                nm = vs[v.a[2].a[1]]
                if cs is None:
                    via = [q for q in st.facts if isinstance(q, T) and q.op == 'elem' and q.a[0].op == 'chars' and q.a[1] is Int(0) and q.a[0].a[0].op in ('app', 'trim')
                           and str(q.a[0].a[0].a[0]).split('::')[-1] in ('trim_start_matches', 'to_lowercase', 'to_ascii_lowercase', 'trim_matches', 'to_uppercase') and q.a[0].a[0].a[1] is w and st.facts[q][0] == '=']
                    if via:
                        R.bad('letters', s.where, 'the command %s is chosen by the first letter of %s, not of the word itself' % (nm.lower(), pp(via[0].a[0].a[0], 4)), facts_str(st))
                        sure = False
                    elif other_letter(st, w):
                        R.bad('letters', s.where, 'the command %s is chosen by %s, not by the first letter of the word' % (nm.lower(), pp(other_letter(st, w), 4)), facts_str(st))
                        sure = False
                    elif any(isinstance(q, T) and any(y is w for y in walk(q)) and q.op not in ('lt', 'len') and q is not c0 and q is not w for q in st.facts):
                        R.unk('letters', s.where, 'condition on the command word not recognised: ' + '; '.join(facts_str(st))[:120])
                        sure = False
                    else:
                        R.bad('letters', s.where, 'any other word is taken for the command %s' % nm.lower(), facts_str(st))
                    continue
                for c in cs:
                    R.check(LETTER.get(c) == nm, 'letters', s.where, '`%s` is %s' % (c, nm.lower()), facts_str(st))
                    if not (whole and whole[0] == 'in'):
                        seen.add(c)
                    else:
                        sure = False
                        R.bad('letters', s.where, 'the command is chosen by the whole word (%s), not by its first letter' % ', '.join(sorted(whole[1])), facts_str(st))
            elif is_err(v):
                if cs and cs & set('beri'):
                    R.bad('letters', s.where, 'the command `%s` is rejected' % ' '.join(sorted(cs)), facts_str(st)) if c0 in st.facts and len([q for q in st.facts if isinstance(q, T) and q.op not in ('lt', 'len')]) == 1 else R.unk('letters', s.where, 'rejected under a further condition')
            else:
                sure = False
        for c in 'beri':
            if c not in seen and sure:
                R.bad('letters', s.where, 'no command is chosen by the letter `%s`' % c)

    def flags():
        n = 'flags::CommandFlags::parse_from_env'
        s = ana.summ(n)
        done = set()
        for st, v in s.outs:
            if not is_ok(v) or v.a[2].op != 'agg':
                if is_ok(v):
                    R.unk('flags', s.where, pp(v, 3))
                continue
            a = v.a[2]
            f = dict(zip(cf, a.a[2:]))
            # command word
            sc = f['subcommand']
            if sc.op == 'agg':
                cw = [k for k in st.facts if isinstance(k, T) and k.op == 'elem' and k.a[0].op == 'chars']
                for k in cw:
                    w = k.a[0].a[0]
                    if w.op == 'elem' and w.a[1].op == 'int' and w.a[0].op == 'sym':
                        R.check(w.a[1] is Int(1), 'command-word', s.where, 'the command is argument %d' % w.a[1].a[0], facts_str(st))
            loops = set(x.a[0] for y in f.values() for x in walk(y) if x.op == 'loopval')
            if len(loops) != 1:
                R.unk('flags', s.where, 'flags are not read by one loop')
                continue
            lt = loops.pop()
            lp = loop_of(lt)
            key = {}
            for nm in ('file_path', 'no_move', 'csv_file', 'rules_file'):
                x = f[nm]
                if x.op == 'loopval':
                    key[nm] = x.a[1]
                    i = dict(lp.inits).get(x.a[1])
                    if nm == 'no_move':
                        if i.op == 'int':
                            R.check(i is Int(0), 'flags', s.where, 'moving is on unless a flag says otherwise')
                    elif i.op == 'agg':
                        R.check(i is NONE, 'flags', s.where, '%s starts out unset' % nm)
                elif x is NONE or x is Int(0):
                    R.bad('flags', s.where, 'no flag sets %s' % nm, facts_str(st))
                else:
                    R.unk('flags', s.where, '%s is %s' % (nm, pp(x, 4)))
            if len(key) != 4 or lt in done:
                continue
            done.add(lt)
            seen, sure = set(), True
            for pf, u, ev in lp.parts:
                u = dict(u)
                ws = [k for k in dict(pf) if isinstance(k, T) and k.op == 'elem' and k.a[1].op == 'k' and len(k.a[1].a) == 1]
                if len(ws) != 1:
                    if not ws and not any(isinstance(k, T) and k.op == 'app' for k in dict(pf)):
                        R.bad('flags', s.where, 'a word is passed over without looking at it', fstr(pf))
                    else:
                        R.unk('flags', s.where, 'condition on a flag not recognised: %s' % fstr(pf))
                        sure = False
                    continue
                w = ws[0]
                kd = words_of(pf, w)
                other = [k for k, z in pf if isinstance(k, T) and k is not w and k.op != 'more' and not (k.op == 'discr' and k.a[0].op == 'phi')]
                if kd[0] == 'not':
                    if all(k.op == 'app' and str(k.a[0]).split('::')[-1] in ('starts_with', 'ends_with', 'contains') and k.a[1] is w and k.a[2].op == 'str' for k in other):
                        R.bad('flags', s.where, 'an unknown flag is let through', fstr(pf))
                    else:
                        R.unk('flags', s.where, 'condition on a flag not recognised: %s' % fstr(pf))
                        sure = False
                    continue
                val = raw('elem', w.a[0], raw('k', lp.depth, 1))
                took = any(isinstance(k, T) and k.op == 'more' and len(k.a) > 1 and z == ('=', 1) for k, z in pf)
                took2 = any(isinstance(k, T) and k.op == 'more' and len(k.a) > 1 for k, z in pf)
                for fl in sorted(kd[1]):
                    exp = FLAG.get(fl)
                    ch = [nm for nm in key if u.get(key[nm], raw('phi', lp.depth, key[nm])) is not raw('phi', lp.depth, key[nm])]
                    if exp is None:
                        # a flag the specification does not speak of
                        if ch:
                            R.bad('flags', s.where, '`%s` sets %s' % (fl, ', '.join(ch)), fstr(pf))
                        continue
                    seen.add(fl)
                    bad = [nm for nm in ch if nm != exp]
                    if bad:
                        R.bad('flags', s.where, '`%s` sets %s' % (fl, ', '.join(bad)), fstr(pf))
                        continue
                    if not ch:
                        # kept although given again
                        if other:
                            R.unk('flags', s.where, 'condition on a flag not recognised: %s' % fstr(pf))
                        else:
                            R.bad('flags', s.where, '`%s` does not set %s' % (fl, exp), fstr(pf))
                        continue
                    x = u[key[exp]]
                    if exp == 'no_move':
                        if x.op == 'int':
                            R.check(x is Int(1), 'flags', s.where, '`%s` switches moving off' % fl, fstr(pf))
                        elif x.op == 'not' and x.a[0].op == 'phi':
                            R.bad('flags', s.where, '`%s` switches moving back on when it is given twice' % fl, fstr(pf))
                        else:
                            R.unk('flags', s.where, '`%s` sets %s' % (fl, pp(x, 4)))
                        if took2:
                            R.bad('flags', s.where, '`%s` swallows the next word' % fl, fstr(pf))
                        continue
                    if x is Some(val) or x.op == 'agg' and x.a[0] == OPT and len(x.a) == 3 and strip(x.a[2]) is val:
                        R.ok('flags', s.where, '`%s` sets %s to the next word' % (fl, exp))
                    elif x.op == 'agg' and x.a[0] == OPT and (x is NONE or x.a[2].op in ('str', 'elem') and x.a[2] is not val or altered(x.a[2], val)):
                        R.bad('flags', s.where, '`%s` sets %s to %s' % (fl, exp, pp(x, 4)), fstr(pf))
                    elif x.op == 'agg' and x.a[0] == OPT and len(x.a) == 3 and skipped_word(x.a[2]):
                        R.bad('flags', s.where, '`%s` sets %s to a later word than the next: %s' % (fl, exp, pp(x, 4)), fstr(pf))
                    else:
                        R.unk('flags', s.where, '`%s` sets %s to %s' % (fl, exp, pp(x, 4)))
            w, val = [raw('elem', raw('sym', 'argv'), x) for x in (raw('hit', lt), raw('hit', lt, 1))]
            for k in {k for pf, u, ev in lp.parts for k in dict(pf) if isinstance(k, T) and k.op == 'elem' and k.a[1].op == 'k' and len(k.a[1].a) == 1}:
                w, val = raw('elem', k.a[0], raw('hit', lt)), raw('elem', k.a[0], raw('hit', lt, 1))
            for st2, v2 in s.outs:
                if not is_err(v2) or fdec(st2.facts, raw('found', lt)) != 1:
                    continue
                kd = words_of(tuple(st2.facts.items()), w)
                fls = kd[1] & set(FLAG) if kd[0] == 'in' else set(FLAG) - kd[1] if kd[0] == 'not' else set()
                if not fls or kd[0] == 'in' and fls != kd[1]:
                    continue
                oth = [k for k in st2.facts if isinstance(k, T) and any(y is val for y in walk(k))]
                if 'no_move' not in [FLAG[x] for x in fls] and fdec(st2.facts, raw('found', lt, 1)) != 1:
                    R.ok('flags', s.where, 'a flag without its value is an error')
                elif not oth or all(k.op in ('len', 'lt', 'eq') and fdec(st2.facts, Eq(raw('len', val), Int(0))) is None for k in oth):
                    R.bad('flags', s.where, '`%s` is rejected although it has its value' % ' '.join(sorted(fls)), facts_str(st2))
                else:
                    R.unk('flags', s.where, 'a flag is rejected: %s' % '; '.join(facts_str(st2)))
            for fl in FLAG:
                if fl not in seen and sure:
                    R.bad('flags', s.where, 'the flag `%s` is not understood' % fl)

    def strip(t):
        while t.op == 'app' and len(t.a) == 2 and str(t.a[0]).split('::')[-1] in ('from', 'into', 'to_owned', 'clone', 'new', 'to_path_buf'):
            t = t.a[1]
        return t

    def dispatch():
        n = 'flags::CommandFlags::execute'
        s = ana.summ(n)
        p0 = Sym('P0')
        fp = raw('fld', p0, 'file_path')
        env = lambda x: raw('app', 'std::env::var', Str(x))
        sub = discr(raw('fld', p0, 'subcommand'))
        D = {nm: Int(E.ENUM_DISCR.get(('silverfox::flags::Subcommand', i), i)) for i, nm in enumerate(vs)}

        def known(x):
            return x.op == 'str' or x is payload(fp) or x.op == 'fld' and x.a[1] == 'Ok.0' and x.a[0].op == 'app' and x.a[0].a[0] == 'std::env::var' and x.a[0].a[1].op == 'str'

        def journal(o):
            if o(Eq(discr(fp), Int(1))):
                return payload(fp)
            for x in ('SILVERFOX_FILE', 'LEDGER_FILE'):
                if o(Eq(discr(env(x)), Int(0))):
                    return payload_ok(env(x))
            return 'none'

        def command(o):
            for nm in REPORT:
                if o(Eq(sub, D[nm])):
                    return nm
            return 'other'
        for st, v in s.outs:
            evs = [e for e, _, _ in events(st.ev)]
            loads = [e for e in evs if e[0] == L + 'from_file']
            facts = facts_str(st)
            for exp, asked, s2 in outcomes(st, journal):
                odd = [r for a, _ in asked for r in related(st, a)] or any(isinstance(k, T) and any(y.op == 'app' and 'env' in str(y.a[0]) and y.a[0] != 'std::env::var' for y in walk(k)) for k in st.facts)
                if exp == 'none':
                    if loads:
                        x = strip(loads[0][1])
                        (R.unk if odd or not known(x) else R.bad)('journal', s.where, 'a journal is read although none was named: %s' % pp(x, 4))
                    else:
                        R.ok('journal', s.where, 'no journal, no run')
                    continue
                if not loads:
                    if asked or odd:
                        R.unk('journal', s.where, 'no journal is read')
                    else:
                        R.bad('journal', s.where, 'the journal %s is not read' % pp(exp, 4), facts)
                    continue
                x = strip(loads[0][1])
                if x is exp:
                    R.ok('journal', s.where, 'reads %s' % pp(exp, 4))
                elif known(x):
                    R.bad('journal', s.where, 'reads %s where %s is meant' % (pp(x, 4), pp(exp, 4)), facts)
                else:
                    R.unk('journal', s.where, 'reads %s' % pp(x, 4))
            if len(loads) != 1:
                continue
            led = raw('app', *loads[0][:-1])
            if E.decide(st, Eq(discr(led), Int(0))) != 1:
                continue
            lv = payload_ok(led)
            fills = [e for e in evs if e[0] == L + 'fill_envelopes']
            failed = False
            for e in fills:
                if E.decide(st, Eq(discr(raw('app', *e[:-1])), Int(0))) == 0:
                    failed = True
            reps = [e for e in evs if e[0] in REPORT.values()]
            for exp, asked, s2 in outcomes(st, command):
                if asked and related(st, asked[0][0], (sub,)):
                    R.unk('report', s.where, 'condition on the command not recognised')
                    continue
                want = REPORT.get(exp)
                names = [e[0] for e in reps]
                if failed:
                    continue
                nocsv = exp == 'Import' and E.decide(s2, Eq(discr(raw('fld', p0, 'csv_file')), Int(1))) != 1
                if want is None or nocsv:
                    if names:
                        R.bad('report', s.where, 'the command %s runs %s' % (exp.lower(), ', '.join(x.split('::')[-1] for x in names)), facts)
                    else:
                        R.ok('report', s.where, 'no report')
                    continue
                if names != [want]:
                    R.bad('report', s.where, 'the command %s runs %s' % (exp.lower(), ', '.join(x.split('::')[-1] for x in names) or 'no report'), facts)
                    continue
                e = reps[0]
                base = e[1]
                while base.op == 'post':
                    base = base.a[2]
                if base is lv:
                    R.ok('report', s.where, '%s runs on the journal loaded' % exp.lower())
                else:
                    R.unk('report', s.where, '%s runs on %s' % (exp.lower(), pp(e[1], 4)))
                wantargs = {'Register': [raw('fld', p0, 'begin_date'), raw('fld', p0, 'end_date'), NONE],
                            'Import': [payload(raw('fld', p0, 'csv_file')), raw('fld', p0, 'rules_file')]}.get(exp, [])
                for got, w in zip(e[2:-1], wantargs):
                    if got is w:
                        R.ok('report', s.where, 'given %s' % pp(w, 4))
                    elif got is NONE and E.decide(s2, Eq(discr(w), Int(0))) == 1 or got.op == 'agg' and len(got.a) == 3 and got.a[2] is payload(w):
                        R.ok('report', s.where, 'given %s' % pp(w, 4))
                    elif got.op == 'agg' and got.a[0] == OPT and len(got.a) == 3 and got.a[2] in [payload(raw('fld', p0, x)) for x in cf if x not in w.a]:
                        R.bad('report', s.where, '%s is given %s where %s is meant' % (exp.lower(), pp(got, 4), pp(w, 4)), facts)
                    elif got.op == 'fld' and got.a[0] is p0 or got.op in ('fld', 'agg', 'str') and not related(s2, w):
                        R.bad('report', s.where, '%s is given %s where %s is meant' % (exp.lower(), pp(got, 4), pp(w, 4)), facts)
                    else:
                        R.unk('report', s.where, '%s is given %s' % (exp.lower(), pp(got, 4)))

    R.section('letters', letters)
    R.section('flags', flags)
    R.section('dispatch', dispatch)
