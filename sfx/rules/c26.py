"""The configured date format and decimal symbol are used throughout.

Interprocedural provenance: every place that reads or writes a date, and every
place that reads an amount, is followed back through the parameters of its
callers to where the format or the symbol comes from. That has to be the
`date_format` or `decimal_symbol` of the journal or the import rules."""
import re
from ..base import *
from ..rulefile import strip_trim
from ..acc import base_it
from .c20 import appn

NODES = ['importer::Rules::get_entry_from_record', 'ledger::Ledger::parse_chunk', 'ledger::Ledger::append_entries',
         'ledger::Ledger::add_from_file', 'ledger::Ledger::parse_entry', 'entry::Entry::parse_header', 'entry::Entry::as_register_data',
         'posting::ClassicPosting::parse', 'posting::EnvelopePosting::parse', 'ledger::Ledger::parse_account']
AP = 'amount::Amount::parse'


def DATE(m):
    return 'NaiveDate' in m and (m.endswith('::parse_from_str') or m.endswith('::format'))


def run(ana, R):
    for f in build(ana, R):
        R.section(f.__name__, f)


def build(ana, R):
    p0, p1 = Sym('P0'), Sym('P1')
    nodes = []
    for n in API + NODES:
        try:
            ana.fn(n)
        except Missing:
            continue
        if n not in nodes:
            nodes.append(n)
    events_of = {}

    def evs(n):
        """every call of n's paths, loops included"""
        if n not in events_of:
            try:
                s = ana.summ(n, inline=(n,), opaque=tuple(x for x in nodes if x != n))
                out = []
                for st, _ in s.outs:
                    out += [(e, f) for e, _, f in events(st.ev)]
                for st in (x[0] for x in s.panics):
                    out += [(e, f) for e, _, f in events(st.ev)]
                out += pure(s)
                events_of[n] = (s, out)
            except (Unknown, E.Budget) as e:
                events_of[n] = (None, str(e))
        return events_of[n]

    def pure(s):
        """calls without effects leave only their terms behind"""
        seen, out, loops = set(), [], set()
        loc = {}

        def go(t, f):
            for y in walk(t):
                if y in seen:
                    continue
                seen.add(y)
                if y.op == 'app' and isinstance(y.a[0], str) and DATE(y.a[0]):
                    out.append((tuple(y.a) + ((s.inst['file'], s.inst['line']),), f))
                elif y.op == 'loop' and y not in loops:
                    loops.add(y)
                    lp = loop_of(y)
                    for z in [lp.it] + [i for _, i in lp.inits]:
                        if isinstance(z, T):
                            go(z, f)
                    for pf, pu, pe in lp.parts:
                        fst = fstate(pf)
                        for k, _ in pf:
                            if isinstance(k, T):
                                go(k, pf)
                        for _, z in pu:
                            if isinstance(z, T):
                                go(z, pf)
                        for e in pe:
                            for z in e:
                                if isinstance(z, T):
                                    go(z, pf)
        for st, v in s.outs:
            f = list(st.facts.items())
            for z in [v] + [k for k in st.facts if isinstance(k, T)] + [x for x in st.mem.values() if isinstance(x, T)]:
                go(z, f)
            for e in st.ev:
                for z in e:
                    if isinstance(z, T):
                        go(z, f)
        return out

    def sites(pred):
        """MIR call sites of the sink outside tests: {(file, line)}"""
        out = {}
        for inst in ana.p.local:
            for name, callee, line, t in ana.calls(inst):
                full = callee['name'].replace('silverfox::', '') if callee else name
                if pred(name) or pred(full):
                    out[(inst['file'], line)] = inst['name'].replace('silverfox::', '')
        return out

    def flow(rule, what, field, sinks, lit):
        """sinks: {(predicate on names, argument index)}"""
        todo = list(sinks)
        seen = set()
        done = {}
        covered = set()
        vis = {}
        allsites = {}
        while todo:
            key, pred, i = todo.pop()
            if (key, i) in seen:
                continue
            seen.add((key, i))
            ss = sites(pred)
            allsites.update(((fl, key), fn) for fl, fn in ss.items())
            for n in nodes:
                s, out = evs(n)
                if s is None:
                    continue
                for e, f in out:
                    if not isinstance(e[0], str) or not pred(e[0]) or len(e) <= i + 2:
                        continue
                    w = e[-1]
                    covered.add((w, key))
                    if DATE(e[0]):
                        vis.setdefault(key, set()).update(ana.p.insts[x]['name'].replace('silverfox::', '') for x in s.eng.visited)
                    x = e[1 + i]
                    where = '%s:%s' % w
                    if key == 'format' and not any(y.op == 'sym' or appn(y, 'now') for y in walk(e[1])):
                        # trying out a format on a made-up date
                        done.setdefault((where, 'a format is only tried out'), ('ok', None))
                        continue
                    if x.op == 'sym' and x.a[0].startswith('P'):
                        j = int(x.a[0][1:])
                        if n in ('main',):
                            continue
                        done.setdefault((where, '%s is handed down by %s' % (what, n)), ('ok', None))
                        todo.append((n, lambda m, n=n: m == n, j))
                    elif x.op == 'fld' and x.a[1] == field and not any(y.op in ('app', 'str') for y in walk(x)):
                        done.setdefault((where, '%s is the configured one' % what), ('ok', None))
                    elif x.op in ('str', 'int', 'num', 'chr') or x.op == 'sym' and not x.a[0].startswith('P'):
                        done.setdefault((where, '%s is fixed to %s' % (what, lit(x))), ('bad', f))
                    elif x.op == 'fld' and all(y.op in ('fld', 'sym') for y in walk(x)) and x.a[1] not in ('Some.0', 'Ok.0', '0'):
                        done.setdefault((where, '%s is %s' % (what, pp(x))), ('bad', f))
                    else:
                        done.setdefault((where, '%s is %s' % (what, pp(x, 4))), ('unk', None))
        for (where, msg), (k, f) in sorted(done.items(), key=lambda z: z[0]):
            if k == 'ok':
                R.ok(rule, where, msg)
            elif k == 'bad':
                R.bad(rule, where, msg, fstr(f))
            else:
                R.unk(rule, where, msg)
        cov = set(c[0] for c in covered)
        for (fl, key), fn in sorted(allsites.items()):
            if (fl, key) not in covered and fl not in cov and fn not in vis.get(key, ()):
                R.unk(rule, '%s:%s' % fl, 'call of %s in %s is not on an analysed path' % (key, fn))

    def dates():
        flow('date', 'the date format', 'date_format', [
            ('parse_from_str', lambda m: 'NaiveDate' in m and m.endswith('::parse_from_str'), 1),
            ('format', lambda m: 'NaiveDate' in m and m.endswith('::format'), 1)], lambda x: pp(x))

    def symbols():
        ana.fn(AP)
        flow('decimal', 'the decimal symbol', 'decimal_symbol', [(AP, lambda m: m == AP, 1)], lambda x: repr(chr(int(num(x)))) if num(x) is not None else pp(x))

    def otherwise():
        """a date made from text by any other call"""
        n = 0
        for inst in ana.p.local:
            nm = inst['name'].replace('silverfox::', '')
            if inst['file'].endswith('flags.rs'):
                continue
            for name, callee, line, t in ana.calls(inst):
                n += 1
                if DATE(name) or callee and callee['local']:
                    continue
                dst = ana.p.ty(inst['body']['locals'][t[3][0]]).get('s', '')
                if re.match(r'std::result::Result<chrono::NaiveDate(Time)?, chrono::(format::)?ParseError>$', dst):
                    R.bad('date', '%s:%s' % (inst['file'], line), '%s reads a date without the configured format (%s)' % (nm, name), '')
        R.ok('date', '-', '%d calls: no other way to read a date' % n)

    # ------------------------------------------------------------ setting it
    def setting():
        n = 'ledger::Ledger::parse_chunk'
        ana.need_fields('ledger::Ledger', 'date_format', 'decimal_symbol')
        s = ana.summ(n, inline=(n,), opaque=('ledger::Ledger::add_from_file',))
        lf = ana.adt('ledger::Ledger')['variants'][0]['fields']
        W = raw('words', p1)
        kw, val = raw('elem', W, Int(0)), raw('elem', W, Int(1))
        nset = 0
        for st, v in s.outs:
            for e, _, _ in events(st.ev):
                if isinstance(e[0], str) and e[0].endswith('add_from_file'):
                    for f in ('date_format', 'decimal_symbol'):
                        x = fget(e[1], lf, f)
                        if x is None:
                            R.unk('setting', s.where, 'an included file is read into %s' % pp(e[1], 3))
                        else:
                            R.check(x is raw('fld', p0, f), 'setting', '%s:%s' % e[-1], 'an included file is read with %s %s' % (f, pp(x, 3)), facts_str(st))
            if not is_ok(v) and not (v.op == 'app' and str(v.a[0]).endswith('add_from_file')):
                continue
            m = ana.mem(st, 0)
            fs = facts_str(st)
            for f in ('date_format', 'decimal_symbol'):
                x = fget(m, lf, f)
                old = raw('fld', p0, f)
                isdf = E.decide(st, Eq(kw, Str('date_format')))
                if x is None:
                    if any(isinstance(e[0], str) and e[0].endswith('add_from_file') for e, _, _ in events(st.ev)):
                        continue
                    R.unk('setting', s.where, 'the ledger becomes %s' % pp(m, 3))
                elif x is old:
                    if f == 'date_format' and any(isinstance(e[0], str) and e[0].endswith('add_from_file') for e, _, _ in events(st.ev)):
                        R.bad('setting', s.where, 'a date format set in an included file does not stay set', fs)
                    elif f == 'date_format' and isdf == 1:
                        R.bad('setting', s.where, 'a date_format line does not set the date format', fs)
                    else:
                        R.ok('setting', s.where, '%s stays what it is' % f)
                elif f == 'date_format' and isdf == 1:
                    if x is val:
                        nset += 1
                        R.ok('setting', s.where, 'a date_format line sets the date format to its value')
                    elif x.op == 'str' or altered(x, val) or x.op == 'elem' and x.a[0] is W or all(y is p1 or y.op in ('str', 'int', 'words', 'elem', 'cat') for y in walk(x)):
                        R.bad('setting', s.where, 'a date_format line sets the date format to %s' % pp(x), fs)
                    else:
                        R.unk('setting', s.where, 'a date_format line sets the date format to %s' % pp(x, 4))
                elif isdf == 0 or f == 'decimal_symbol':
                    if appn(x, 'post') or x.op in ('post', 'fld') and any(y.op == 'post' for y in walk(x)):
                        continue
                    if any(y.op in ('loopval', 'phi') for y in walk(x)):
                        R.unk('setting', s.where, '%s becomes %s' % (f, pp(x, 3)))
                        continue
                    R.bad('setting', s.where, '%s becomes %s by another line' % (f, pp(x, 3)), fs)
                else:
                    R.unk('setting', s.where, '%s becomes %s' % (f, pp(x, 3)))
        if not nset:
            R.unk('setting', s.where, 'no date_format line')

    def fget(m, lf, f):
        if m is p0:
            return raw('fld', p0, f)
        if m is not None and m.op == 'agg' and len(m.a) == len(lf) + 2:
            return m.a[2 + lf.index(f)]
        return None

    # ------------------------------------------------------------ the decimal symbol at work
    def amounts():
        s = ana.summ(AP, inline=(AP,))
        af = ana.adt('amount::Amount')['variants'][0]['fields']
        n = 0
        for st, v in s.outs:
            if not is_ok(v) or v.a[2].op != 'agg':
                continue
            n += 1
            fs = facts_str(st)
            symbol(s, st, v.a[2].a[2 + af.index('symbol')], fs)
            mag = v.a[2].a[2 + af.index('mag')]
            t = mag.a[0] if mag.op == 'fld' and mag.a[1] == 'Ok.0' else None
            if t is None or t.op != 'app' or not ('from_str' in t.a[0] or t.a[0].endswith('::parse')):
                num_ = [y for y in walk(mag) if y.op == 'fld' and y.a[1] == 'Ok.0' and y.a[0].op == 'app' and ('from_str' in y.a[0].a[0] or y.a[0].a[0].endswith('::parse'))]
                if len(num_) == 1 and changed(mag, num_[0]):
                    R.bad('amount', s.where, 'the magnitude of an amount is not the number read but %s' % pp(mag, 6), fs)
                else:
                    R.unk('amount', s.where, 'magnitude %s' % pp(mag, 4))
                continue
            x = t.a[1]
            dot = E.decide(st, Eq(p1, Int(46)))
            if x.op == 'app' and x.a[0] == 'replace' or appn(x, 'replace'):
                y, frm, to = x.a[1], x.a[2], x.a[3]
                if frm in (p1, raw('chr', p1)) and to is Str('.'):
                    x, okk = y, True
                elif dot == 1 and frm in (Str('.'), Int(46)) and to is Str('.'):
                    x, okk = y, True
                elif frm.op in ('str', 'int') or to.op == 'str':
                    R.bad('amount', s.where, 'in the number of an amount %s is replaced by %s' % (pp(frm), pp(to)), fs)
                    continue
                else:
                    R.unk('amount', s.where, 'number %s' % pp(t.a[1], 4))
                    continue
            else:
                okk = dot == 1
            if x.op != 'loopval':
                R.unk('amount', s.where, 'number %s' % pp(x, 4))
                continue
            loop(s, st, x, dot, fs, okk)
        if not n:
            R.unk('amount', s.where, 'no amount accepted')

    def changed(t, x):
        """arithmetic on x and constants"""
        if t is x or num(t) is not None:
            return True
        n = t.a[0].split('::')[-1] if t.op == 'app' and isinstance(t.a[0], str) else t.op
        if t.op == 'lin':
            return all(changed(y, x) for y, c in t.a[1])
        return n in ('round', 'floor', 'ceil', 'trunc', 'abs', 'neg', 'mul', 'div', 'min', 'max') and all(changed(y, x) for y in t.a if isinstance(y, T))

    def source(s, st, t, fs):
        """the text an amount is made from is all of the text given"""
        y = strip_trim(t)
        if appn(y, 'join'):
            w = y.a[1]
            if w.op in ('from', 'take') and w.a[0].op == 'words' and (num(w.a[1]) if isinstance(w.a[1], T) else w.a[1]):
                R.bad('amount', s.where, 'words of an amount are left out: %s' % pp(w, 4), fs)
                return
            if w.op != 'words':
                R.unk('amount', s.where, 'text of an amount %s' % pp(t, 4))
                return
            y = w.a[0]
        elif y.op == 'elem' and y.a[0].op == 'words' and num(y.a[1]) is not None:
            n = E.decide(st, Eq(raw('len', y.a[0]), Int(1)))
            if n == 0:
                R.bad('amount', s.where, 'words of an amount are left out: only word %d is read' % (num(y.a[1]) + 1), fs)
                return
            if n is None:
                R.unk('amount', s.where, 'text of an amount %s' % pp(t, 4))
                return
            y = y.a[0].a[0]
        y = strip_trim(y)
        if y is p0:
            R.bad('amount', s.where, 'two minus signs in a row do not cancel each other', fs)
        elif appn(y, 'replace') and strip_trim(y.a[1]) is p0 and y.a[2] is Str('--') and y.a[3].op == 'str':
            R.check(not y.a[3].a[0].strip(), 'amount', s.where, 'two minus signs in a row cancel each other', fs)
        else:
            R.unk('amount', s.where, 'text of an amount %s' % pp(y, 4))

    def symbol(s, st, x, fs):
        """the rest of the text is the symbol"""
        if x.op == 'agg' and x.a[0] == 'std::option::Option' and x.a[1] == 1:
            y = strip_trim(x.a[2])
            ls = [z for z in walk(y) if z.op == 'loopval']
            if y.op == 'loopval':
                symloop(s, st, y, fs)
            elif len(set(ls)) == 1 and any(altered(y, z) for z in walk(y)):
                R.bad('amount', s.where, 'the symbol of an amount becomes %s' % pp(y, 4), fs)
            elif y.op == 'elem' and y.a[0].op in ('words', 'splits') and strip_trim(y.a[0].a[0]).op == 'loopval':
                R.bad('amount', s.where, 'only a word of the symbol of an amount is kept', fs)
            elif y.op == 'str':
                R.bad('amount', s.where, 'the symbol of an amount is always %s' % pp(y), fs)
            else:
                R.unk('amount', s.where, 'symbol %s' % pp(y, 4))
            return
        if x.op == 'agg' and x.a[0] == 'std::option::Option' and x.a[1] == 0:
            for k, z in st.facts.items():
                if isinstance(k, T) and k.op == 'len' and strip_trim(k.a[0]).op == 'loopval' and z == ('=', 0):
                    R.ok('amount', s.where, 'no symbol where there is nothing else')
                    return
            for k, z in st.facts.items():
                if isinstance(k, T) and k.op == 'lt' and k.a[0].op == 'len' and strip_trim(k.a[0].a[0]).op == 'loopval' and z == ('=', 1) and num(k.a[1]) is not None and num(k.a[1]) > 1:
                    R.bad('amount', s.where, 'a symbol shorter than %d is dropped' % num(k.a[1]), fs)
                    return
        R.unk('amount', s.where, 'symbol %s' % pp(x, 4))

    def symloop(s, st, x, fs):
        lp = loop_of(x.a[0])
        where = '%s:%s' % lp.where
        lst, start, exact = base_it(lp.it)
        if lst is None or lst.op != 'chars' or start != 0 or not exact or dict(lp.inits).get(x.a[1]) is not Str(''):
            R.unk('amount', where, 'symbol made from %s' % pp(lp.it, 4))
            return
        source(s, st, lst.a[0], fs)
        el = raw('elem', lst, raw('k', lp.depth))
        phi = raw('phi', lp.depth, x.a[1])
        dot = E.decide(st, Eq(p1, Int(46)))
        for f, u, ev in lp.parts:
            y = dict(u).get(x.a[1], phi)
            fst = fstate(f)
            if dot is not None:
                fst.facts.setdefault(p1, ('=', 46) if dot else ('!', frozenset([46])))
            q = [E.decide(fst, Eq(p1, el)), E.decide(fst, raw('app', 'char::is_ascii_digit', el))] + [E.decide(fst, Eq(el, Int(c))) for c in (45, 46, 44)]
            if q[1] is None:
                q[1] = next((1 if z == ('=', 1) else 0 for k, z in f if isinstance(k, T) and appn(k, 'is_ascii_digit', 'is_numeric', 'is_digit') and el in k.a and z in (('=', 1), ('=', 0))), None)
            if y not in (phi, cat(phi, raw('chr', el))):
                R.unk('amount', where, 'symbol becomes %s' % pp(y, 4))
                continue
            keep = y is not phi
            if keep and 1 in q:
                R.bad('amount', where, 'a character of the number is kept in the symbol of an amount', fstr(f))
            elif not keep and all(v == 0 for v in q) and spot(f, el):
                R.bad('amount', where, 'a character is left out of the symbol of an amount', fstr(f))
            elif not keep and dollar(f, el):
                R.bad('amount', where, 'a character such as `$` is left out of the symbol of an amount', fstr(f))
            elif 1 in q or all(v == 0 for v in q) and keep:
                R.ok('amount', where, 'all other characters make the symbol')
            elif spot(f, el) and keep:
                R.bad('amount', where, 'a character of the number is kept in the symbol of an amount', fstr(f))
            elif spot(f, el):
                R.bad('amount', where, 'a character is left out of the symbol of an amount', fstr(f))
            else:
                R.unk('amount', where, 'character of the symbol not compared with those of the number')

    def loop(s, st, x, dot, fs, okk):
        lp = loop_of(x.a[0])
        where = '%s:%s' % lp.where
        el = None
        it = lp.it
        while it is not None and it.op in ('ifilter', 'imap', 'icopied'):
            it = it.a[0]
        lst, start, exact = base_it(it)
        if lst is None or lst.op != 'chars' or start != 0:
            R.unk('amount', where, 'number made from %s' % pp(lp.it, 4))
            return
        source(s, st, lst.a[0], fs)
        el = raw('elem', lst, raw('k', lp.depth))
        phi = raw('phi', lp.depth, x.a[1])
        for f, u, ev in lp.parts:
            if okk or not any(k is Eq(p1, el) and z == ('=', 1) for k, z in f):
                continue
            y = dict(u).get(x.a[1], phi)
            if y is cat(phi, raw('chr', el)):
                R.bad('amount', s.where, 'the decimal symbol is not turned into a point', fs)
                return
            if y is phi or y.op == 'cat' and y.a[0] is phi and y.a[1:] == (Str('.'),):
                continue
            R.unk('amount', where, 'number becomes %s' % pp(y, 4))
            return
        for f, u, ev in lp.parts:
            fst = fstate(f)
            if dot is not None:
                fst.facts.setdefault(p1, ('=', 46) if dot else ('!', frozenset([46])))
            y = dict(u).get(x.a[1], phi)
            # what the specification says of this character
            dec = E.decide(fst, Eq(p1, el))
            dig = E.decide(fst, raw('app', 'char::is_ascii_digit', el))
            if dig is None:
                dig = next((1 if z == ('=', 1) else 0 for k, z in f if isinstance(k, T) and appn(k, 'is_ascii_digit', 'is_numeric', 'is_digit') and el in k.a and z in (('=', 1), ('=', 0))), None)
            minus = E.decide(fst, Eq(el, Int(45)))
            if y is phi:
                keep = 0
            elif y is cat(phi, raw('chr', el)):
                keep = 1
            elif y.op == 'cat' and y.a[0] is phi and dec == 1 and y.a[1:] == (Str('.'),):
                keep = 1
            else:
                R.unk('amount', where, 'number becomes %s' % pp(y, 4))
                continue
            if keep == 0 and 1 in (dec, dig, minus):
                R.bad('amount', where, 'a %s is left out of the number of an amount' % ('decimal symbol' if dec == 1 else 'digit' if dig == 1 else 'minus sign'), fstr(f))
            elif keep == 1 and (dec, dig, minus) == (0, 0, 0):
                R.bad('amount', where, 'another character is kept in the number of an amount', fstr(f))
            elif keep == 1 and 1 in (dec, dig, minus) or keep == 0 and (dec, dig, minus) == (0, 0, 0):
                R.ok('amount', where, 'digits, minus sign and decimal symbol make the number')
            elif spot(f, el):
                # nothing else is known of the character: it may be any of those not asked about
                if keep == 0:
                    R.bad('amount', where, 'a %s is left out of the number of an amount' % ('decimal symbol' if dec is None else 'digit' if dig is None else 'minus sign'), fstr(f))
                else:
                    R.bad('amount', where, 'another character is kept in the number of an amount', fstr(f))
            else:
                R.unk('amount', where, 'character of the number not compared with digits, minus sign and decimal symbol')

    def dollar(f, el):
        """what is said about the character is true of a dollar sign"""
        for k, z in f:
            if not isinstance(k, T) or not any(y is el for y in walk(k)):
                continue
            if appn(k, 'is_ascii_digit', 'is_numeric', 'is_digit', 'is_alphabetic', 'is_alphanumeric', 'is_ascii_alphabetic', 'is_ascii_alphanumeric', 'is_uppercase', 'is_lowercase',
                    'is_ascii_uppercase', 'is_ascii_lowercase', 'is_whitespace', 'is_ascii_whitespace', 'is_control') and k.a[1] is el:
                if z != ('=', 0):
                    return False
            elif k is el:
                if not (z == ('=', 36) or z[0] == '!' and 36 not in z[1]):
                    return False
            elif k is Eq(p1, el):
                if z != ('=', 0):
                    return False
            else:
                return False
        return True

    def spot(f, el):
        return all(k is el or k is Eq(p1, el) or appn(k, 'is_ascii_digit', 'is_numeric', 'is_digit') or not any(y is el for y in walk(k)) for k, _ in f if isinstance(k, T))

    # ------------------------------------------------------------ the register
    def register():
        n = 'entry::Entry::as_register_data'
        s = ana.summ(n, inline=(n,))
        rf = ana.adt('entry::EntryRegisterData')['variants'][0]['fields']
        ana.need_fields('entry::EntryRegisterData', 'date')
        for st, v in s.outs:
            x = v
            while x.op == 'agg' and len(x.a) > 2 and x.a[0] != 'entry::EntryRegisterData' and not x.a[0].endswith('EntryRegisterData'):
                x = x.a[2]
            if x.op != 'agg' or not x.a[0].endswith('EntryRegisterData'):
                continue
            d = x.a[2 + rf.index('date')]
            fm = [y for y in walk(d) if appn(y, 'format')]
            if fm and fm[0].a[1] is raw('fld', p0, 'date') and fm[0].a[2] is p1:
                R.ok('register', s.where, 'the date is written in the given format')
            elif fm and fm[0].a[2].op == 'str':
                R.bad('register', s.where, 'the date is written in the fixed format %s' % pp(fm[0].a[2]), facts_str(st))
            elif not fm and any(y.op == 'show' and 'NaiveDate' in y.a[0] or appn(y, 'to_string') for y in walk(d)):
                R.bad('register', s.where, 'the date is not written in the journal\'s format', facts_str(st))
            else:
                R.unk('register', s.where, 'date %s' % pp(d, 4))

    # ------------------------------------------------------------ before anything sets it
    def defaults():
        for n, adt in (('ledger::Ledger::new', 'ledger::Ledger'), ('<importer::Rules as std::default::Default>::default', 'importer::Rules')):
            ana.need_fields(adt, 'date_format', 'decimal_symbol')
            ff = ana.adt(adt)['variants'][0]['fields']
            s = ana.summ(n, inline=(n,))
            for st, v in s.outs:
                for f, good in (('date_format', Str('%Y/%m/%d')), ('decimal_symbol', Int(ord('.')))):
                    x = v.a[2 + ff.index(f)] if v.op == 'agg' and len(v.a) == 2 + len(ff) else None
                    if x is good:
                        R.ok('default', s.where, 'the %s is %s at first' % (f.replace('_', ' '), good.a[0]))
                    elif x is not None and x.op in ('str', 'int'):
                        R.bad('default', s.where, 'the %s is %s at first' % (f.replace('_', ' '), pp(x)))
                    else:
                        R.unk('default', s.where, 'the first %s is not recognised' % f)

    return dates, symbols, otherwise, setting, amounts, register, defaults
