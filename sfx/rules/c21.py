"""Each import rule sets its own setting, and `-` restores its default.

Partition table of the reader of one rule line: for every rule name and both
kinds of value, which settings of the rules differ afterwards from what they
were, compared with what the name stands for and with the defaults the rules
are built with."""
from ..base import *
from .. import rulefile
from .c20 import appn
from .c23 import words_of

SET = {'comment': 'comment', 'note': 'comment', 'date_format': 'date_format', 'date': 'date_str',
       'decimal_symbol': 'decimal_symbol', 'decimal': 'decimal_symbol', 'description': 'description', 'fields': 'fields',
       'payee': 'payee', 'skip': 'skip', 'status': 'status'}
MAPS = {'amount': 'amount_strs', 'account': 'accounts'}
OTHER = {'if', 'include', 'use'}
AF = 'importer::Rules::add_from_file'
strip = rulefile.strip_trim


def judged(x):
    """The names a filter of a map discards, when that is a plain test of their text other than equality."""
    key = raw('mkey', x.a[0])
    for f, b in x.a[1]:
        if b:
            continue
        if all(a.op == 'app' and str(a.a[0]).rsplit('::', 1)[-1] in ('starts_with', 'ends_with', 'contains') and a.a[1] is key and v == ('=', 1)
               for a, v in f) and len(f) == 1:
            return 'those whose name %s %s' % (str(f[0][0].a[0]).rsplit('::', 1)[-1], pp(f[0][0].a[2], 3))
    return None


def run(ana, R):
    fs = ana.adt('importer::Rules')['variants'][0]['fields']
    ana.need_fields('importer::Rules', *(set(SET.values()) | set(MAPS.values())))

    def defaults():
        s = ana.summ('<importer::Rules as std::default::Default>::default')
        if len(s.outs) != 1 or s.outs[0][1].op != 'agg':
            raise Unknown('default rules not recognised')
        return dict(zip(fs, s.outs[0][1].a[2:]))

    def table():
        dflt = defaults()
        n = 'importer::Rules::add_from_line'
        s = ana.summ(n, inline=(n,), opaque=(AF,))
        p0, p1 = Sym('P0'), Sym('P1')
        # the term the rule names are compared with
        names = {}
        for st, v in s.outs:
            for k, x in st.facts.items():
                w = words_of(st.facts, k) if isinstance(k, T) and k.op not in ('discr', 'lt', 'len') else None
                if w and w[1] & (set(SET) | OTHER):
                    names[k] = names.get(k, 0) + 1
        if len(names) != 1:
            raise Unknown('rule name not recognised (%d candidates)' % len(names))
        N = list(names)[0]
        if N.op == 'app' and str(N.a[0]).split('::')[-1] in ('to_lowercase', 'to_uppercase', 'to_ascii_lowercase', 'trim_matches', 'trim_end_matches', 'trim_start_matches', 'replace'):
            R.bad('name', s.where, 'the name of a rule is %s, not the word itself: other names than the known ones are taken for them' % pp(N, 4))
            return
        if not any(y is p1 for y in walk(N)):
            raise Unknown('rule name %s' % pp(N, 4))

        def value_root(t):
            t = strip(t)
            return t
        roots = {}
        for st, v in s.outs:
            for k in st.facts:
                if isinstance(k, T) and k is not N:
                    w = words_of(st.facts, k)
                    if w and '-' in w[1] and any(y is p1 for y in walk(k)):
                        roots.setdefault(value_root(k), set()).add(k)
        if not roots:
            for st, v in s.outs:
                for k, x in st.facts.items():
                    if isinstance(k, T) and k.op == 'app' and str(k.a[0]).split('::')[-1] in ('starts_with', 'ends_with', 'contains') and k.a[1] is not N and any(y is p1 for y in walk(k.a[1])) \
                            and (k.a[2] is Str('-') or k.a[2] is Int(45)) and x == ('=', 1) and is_ok(v):
                        R.bad('reset', s.where, 'a value is discarded whenever %s, not only when it is `-`' % pp(k, 5), facts_str(st))
                        return
        if len(roots) != 1:
            raise Unknown('value of the rule not recognised')
        V = list(roots)[0]
        Vs = roots[V]
        if appn(V, 'join') and V.a[1].op in ('words', 'from', 'take') or any(altered(V, y) for y in walk(V) if y.op in ('sub', 'fld', 'elem')):
            R.bad('value', s.where, 'the value of a rule is not kept as given: %s' % pp(V, 5))
            return
        # name and value must be the two sides of one cut of the line
        if N.op == 'sub' and V.op == 'sub':
            if not (N.a[0] is V.a[0] and N.a[2] is V.a[1]):
                R.unk('name', s.where, 'name %s, value %s' % (pp(N, 4), pp(V, 4)))
            else:
                R.ok('name', s.where, 'name and value are the two sides of the first space')
        seen = {}

        def unchanged(m, f):
            x = m.a[2 + fs.index(f)] if m.op == 'agg' else raw('fld', p0, f)
            return x is raw('fld', p0, f)

        def is_value(t):
            return strip(t) is V

        def one(nm, st, v, m, kind, alone):
            """kind: 'set' | 'reset' | None (both); alone: nothing else is asked in this partition."""
            facts = facts_str(st)
            if m.op == 'post' and m.a[0] == AF:
                if nm in ('include', 'use'):
                    R.check(is_value(m.a[3]), 'include', s.where, '`%s` reads the file named' % nm, facts) if is_value(m.a[3]) or m.a[3].op == 'str' else R.unk('include', s.where, pp(m.a[3], 4))
                    seen.setdefault(nm, set()).update(('set', 'reset'))
                else:
                    R.bad('setting', s.where, '`%s` reads a file' % nm, facts)
                return
            if m.op not in ('agg', 'sym'):
                R.unk('setting', s.where, 'rules become %s' % pp(m, 3))
                return
            changed = [f for f in fs if not unchanged(m, f)]
            f = SET.get(nm)
            pre = [p for p in MAPS if nm == p + '*']
            if is_err(v):
                if changed:
                    return          # the error stops the run anyway
                if nm is None or nm == 'if' or nm == 'fields' and kind == 'reset':
                    seen.setdefault(nm, set()).add(kind)
                    R.ok('error', s.where, '%s is an error' % ('an unknown rule' if nm is None else '`%s`' % nm))
                elif nm in ('include', 'use'):
                    pass
                elif alone:
                    R.bad('setting', s.where, '`%s` is rejected' % nm, facts)
                else:
                    R.ok('setting', s.where, '`%s` can be rejected for its value' % nm)
                return
            if not is_ok(v):
                R.unk('setting', s.where, 'result %s' % pp(v, 3))
                return
            if nm is None:
                R.bad('unknown', s.where, 'an unknown rule name is let through%s' % (', setting ' + ', '.join(changed) if changed else ''), facts)
                return
            if nm == 'if':
                R.bad('setting', s.where, '`if` is taken for a rule', facts)
                return
            if nm in ('include', 'use'):
                R.bad('include', s.where, '`%s` reads no file' % nm, facts)
                return
            seen.setdefault(nm, set()).update((kind,) if kind else ('set', 'reset'))
            target = f or MAPS[pre[0]]
            wrong = [x for x in changed if x != target]
            if wrong:
                R.bad('setting', s.where, '`%s` also changes %s' % (nm, ', '.join(wrong)), facts)
                return
            x = m.a[2 + fs.index(target)] if m.op == 'agg' else raw('fld', p0, target)
            old = raw('fld', p0, target)
            if pre:
                key = [y for y in [x.a[1] if x.op in ('mput', 'mdel') else None] if y is not None]
                if x is old:
                    R.bad('setting', s.where, '`%s` changes nothing' % nm, facts)
                elif x.op == 'mfilter' and x.a[0] is old and judged(x):
                    R.bad('reset' if kind == 'reset' else 'setting', s.where, '`%s` discards the rules of other names as well: %s' % (nm, judged(x)), facts)
                elif x.op == 'emptymap':
                    R.bad('reset' if kind == 'reset' else 'setting', s.where, '`%s` discards the rules of every other name' % nm, facts)
                elif x.op not in ('mput', 'mdel') or x.a[0] is not old:
                    R.unk('setting', s.where, '`%s` makes %s' % (nm, pp(x, 4)))
                elif kind == 'reset' and x.op == 'mput':
                    R.bad('reset', s.where, '`%s -` sets a value instead of discarding it' % nm, facts)
                elif kind == 'set' and x.op == 'mdel':
                    R.bad('setting', s.where, '`%s` discards what it ought to set' % nm, facts)
                else:
                    y = x.a[1]
                    y = strip(y)
                    if y.op == 'fld' and y.a[0].op == 'app' and str(y.a[0].a[0]).endswith('strip_prefix') and y.a[0].a[1] is N:
                        R.check(y.a[0].a[2] is Str(pre[0]), 'setting', s.where, '`%s` is kept under what follows the name' % nm, facts)
                    elif y is N or y.op in ('str', 'int') or any(altered(y, z) for z in walk(y) if z.op == 'fld'):
                        R.bad('setting', s.where, '`%s` is kept under %s' % (nm, pp(y, 4)), facts)
                    else:
                        R.unk('setting', s.where, '`%s` is kept under %s' % (nm, pp(y, 4)))
                    if x.op == 'mput':
                        if is_value(x.a[2]):
                            R.ok('setting', s.where, '`%s` keeps the value given' % nm)
                        elif x.a[2].op == 'app' and any(z is V for z in walk(x.a[2])) or x.a[2].op == 'str':
                            R.bad('setting', s.where, '`%s` keeps %s instead of the value' % (nm, pp(x.a[2], 4)), facts)
                        else:
                            R.unk('setting', s.where, '`%s` keeps %s' % (nm, pp(x.a[2], 4)))
                return
            if kind == 'reset':
                d = dflt[target]
                if x is d:
                    R.ok('reset', s.where, '`%s -` restores the default %s' % (nm, pp(d, 3)))
                elif x is old or x.op in ('str', 'int', 'vec', 'emptymap') or is_value(x):
                    R.bad('reset', s.where, '`%s -` makes it %s; without the rule it is %s' % (nm, 'stay as it is' if x is old else pp(x, 4), pp(d, 4)), facts)
                else:
                    R.unk('reset', s.where, '`%s -` makes it %s' % (nm, pp(x, 4)))
                return
            if x is old:
                if kind == 'set' and alone:
                    R.bad('setting', s.where, '`%s` changes nothing' % nm, facts)
                else:
                    R.unk('setting', s.where, '`%s` changes nothing in a case' % nm)
                return
            good = None
            if target == 'decimal_symbol':
                if x.op == 'elem' and x.a[0].op == 'chars' and is_value(x.a[0].a[0]) and rulefile.trimmed(x.a[0].a[0]) in ('trim', 'trim_start'):
                    ln = raw('len', x.a[0])
                    okl = E.decide(st, Eq(ln, Int(1))) == 1
                    if not okl:
                        big = [k for k, z in st.facts.items() if isinstance(k, T) and k.op == 'lt' and ln in k.a]
                        okl = E.decide(st, Lt(Int(1), ln)) == 0
                    if x.a[1] is not Int(0):
                        good = False
                    elif okl:
                        good = True
                    else:
                        # nothing said about the length beyond there being a first character
                        txt = x.a[0].a[0]
                        about = [k for k in st.facts if isinstance(k, T) and any(y is ln or y is raw('len', txt) for y in walk(k)) and k not in (Lt(Int(0), ln), ln)]
                        good = False if E.decide(st, Lt(Int(1), ln)) == 1 else None if about else False
                elif x.op in ('str', 'int'):
                    good = False
            elif target == 'skip':
                if x.op == 'fld' and x.a[1] == 'Ok.0' and x.a[0].op == 'app' and str(x.a[0].a[0]).split('::')[-1] in ('from_str', 'parse') and is_value(x.a[0].a[1]):
                    good = True
                elif x.op == 'int' or x.op in ('lin', 'app', 'max', 'min') and any(is_value(z) for z in walk(x)):
                    good = False
            elif target == 'fields':
                c = comp(x)
                if c is None and x.op == 'loopval':
                    ph = raw('phi', loop_of(x.a[0]).depth, x.a[1])
                    ups = [dict(u).get(x.a[1], ph) for f_, u, ev in loop_of(x.a[0]).parts]
                    if dict(loop_of(x.a[0]).inits).get(x.a[1]) is old and any(y.op in ('pushf', 'insert', 'concat') and y.a[-1] is ph or y.op == 'insert' and num(y.a[1]) == 0 for y in ups):
                        good = False
                if c is not None and c.init is not old:
                    good = False if c.init.op == 'vec' else None
                elif c is not None:
                    src, whole = src_of(c.lp.it)
                    el = raw('elem', src, raw('k', c.lp.depth)) if src is not None else None
                    if src is not None and src.op == 'splits' and is_value(src.a[0]):
                        good = True
                        if num(src.a[2]) not in (44, None) or src.a[2].op == 'str' and src.a[2].a[0] != ',':
                            good = False
                        if not whole:
                            good = False
                        for pf, add_ in c.rows:
                            cond = [k for k, _ in pf if isinstance(k, T) and k.op != 'more']
                            if len(add_) == 1 and add_[0][0] == 'elem' and strip(add_[0][1]) is el:
                                if rulefile.trimmed(add_[0][1]) != 'trim':
                                    good = False if add_[0][1] is el and good else good
                            elif not add_ and not cond or len(add_) > 1:
                                good = False
                            elif not add_ and cond:
                                good = False if all(k.op == 'len' or k.op == 'lt' for k in cond) else None
                            else:
                                good = None
            else:
                if is_value(x):
                    good = True
                elif x.op == 'str' or x.op == 'app' and is_value(x.a[1]) if x.op == 'app' and len(x.a) > 1 and isinstance(x.a[1], T) else x.op == 'str':
                    good = False
                elif x.op in ('fld', 'sub') and x is not V and not any(y is V for y in walk(x)):
                    good = False
                elif x is N or strip(x) is p1:
                    good = False
            if good:
                R.ok('setting', s.where, '`%s` sets %s to the value given' % (nm, target))
            elif good is False:
                R.bad('setting', s.where, '`%s` makes %s %s' % (nm, target, pp(x, 6)), facts)
            else:
                R.unk('setting', s.where, '`%s` makes %s %s' % (nm, target, pp(x, 6)))

        novalue = False
        for st, v in s.outs:
            m = ana.mem(st, 0)
            if m is None:
                R.unk('setting', s.where, 'rules not followed')
                continue
            w = words_of(st.facts, N)
            kinds = set()
            for k in Vs:
                x = words_of(st.facts, k)
                if x:
                    if x[0] == 'in' and x[1] == {'-'}:
                        kinds.add('reset')
                    elif x[0] == 'not' and '-' in x[1]:
                        kinds.add('set')
            kind = list(kinds)[0] if len(kinds) == 1 else None
            if kind == 'reset' and any(words_of(st.facts, k) and k is V for k in Vs):
                pass
            prefixes = {}
            for k, x in st.facts.items():
                if isinstance(k, T) and k.op == 'discr' and k.a[0].op == 'app' and str(k.a[0].a[0]).endswith('strip_prefix') and k.a[0].a[1] is N and k.a[0].a[2].op == 'str':
                    prefixes[k.a[0].a[2].a[0]] = x == ('=', 1)
                if isinstance(k, T) and k.op == 'app' and str(k.a[0]).endswith('starts_with') and k.a[1] is N and k.a[2].op == 'str':
                    prefixes[k.a[2].a[0]] = x == ('=', 1)
            if w is None and not prefixes:
                # before the name is known
                if is_err(v):
                    novalue = True
                    R.ok('no-value', s.where, 'a rule without a value is an error')
                elif m is p0 or m.op == 'agg' and all(unchanged(m, f) for f in fs):
                    cut = [k for k in st.facts if isinstance(k, T) and k.op == 'discr' and k.a[0].op == 'app' and str(k.a[0].a[0]).split('::')[-1] in ('find', 'split_once') and st.facts[k] == ('=', 0)]
                    if cut:
                        R.bad('no-value', s.where, 'a rule without a value is let through', facts_str(st))
                    else:
                        R.unk('no-value', s.where, 'a line has no effect: %s' % facts_str(st))
                else:
                    R.unk('setting', s.where, 'a setting changes whatever the name')
                continue
            extra = [k for k in st.facts if isinstance(k, T) and k is not N and k not in Vs and not any(y.op == 'found' for y in walk(k))
                     and not (k.op == 'discr' and k.a[0].op == 'app' and str(k.a[0].a[0]).split('::')[-1] in ('find', 'strip_prefix', 'split_once'))
                     and not (k.op == 'app' and str(k.a[0]).endswith('starts_with') and k.a[1] is N)]
            if w and w[0] == 'in':
                for nm in sorted(w[1]):
                    if nm in SET or nm in OTHER:
                        one(nm, st, v, m, kind, not extra)
                    elif any(nm.startswith(p) for p in MAPS):
                        one([p + '*' for p in MAPS if nm.startswith(p)][0], st, v, m, kind, not extra)
                    else:
                        one(None, st, v, m, kind, not extra)
                continue
            yes = [p for p, x in prefixes.items() if x]
            if yes:
                if len(yes) == 1 and yes[0] in MAPS:
                    one(yes[0] + '*', st, v, m, kind, not extra)
                elif len(yes) == 1 and not any(p.startswith(yes[0]) or yes[0].startswith(p) for p in MAPS) and is_ok(v):
                    R.bad('unknown', s.where, 'a rule name starting with `%s` is let through' % yes[0], facts_str(st))
                else:
                    R.unk('setting', s.where, 'prefixes %s' % yes)
                continue
            rest = (set(SET) | OTHER) - (w[1] if w else set())
            if is_err(v):
                for nm in sorted(rest - {'if'}):
                    if extra:
                        R.unk('setting', s.where, '`%s` rejected under a condition' % nm)
                    elif not (nm == 'fields' and kind != 'set'):
                        seen.setdefault(nm, set()).add(kind)
                        R.bad('setting', s.where, '`%s` is not understood%s' % (nm, ' when its value is `-`' if kind == 'reset' else ''), facts_str(st))
                for p in MAPS:
                    if prefixes.get(p) is None:
                        (R.unk if extra or prefixes else R.bad)('setting', s.where, '`%s` is not understood' % p)
                if not rest - {'if', 'fields'}:
                    one(None, st, v, m, kind, not extra)
            elif extra:
                R.unk('unknown', s.where, 'condition on the name not recognised: %s' % facts_str(st))
            else:
                one(None, st, v, m, kind, True)
        if not novalue:
            R.unk('no-value', s.where, 'no case without a value found')
        for nm in sorted(SET) + ['amount*', 'account*']:
            miss = {'set', 'reset'} - seen.get(nm, set())
            if nm == 'fields':
                miss -= {'reset'}
            if miss:
                R.unk('setting', s.where, '`%s`: no case found to %s it' % (nm, ' and '.join(sorted(miss))))

    def included():
        AS = 'importer::Rules::add_from_str'
        s = ana.summ(AF, inline=(AF,), opaque=(AS,))
        p0, p1 = Sym('P0'), Sym('P1')
        n = 0
        for st, v in s.outs:
            m = ana.mem(st, 0)
            facts = facts_str(st)
            rd = payload_ok(raw('app', 'std::fs::read_to_string', p1))
            if m is None:
                R.unk('include', s.where, 'rules not followed')
            elif m.op == 'post' and m.a[0] == AS:
                n += 1
                if m.a[2] is p0:
                    R.ok('include', s.where, 'the rules of an included file are added to those there are')
                else:
                    lost = [f for i, f in enumerate(fs) if m.a[2].op == 'agg' and m.a[2].a[2 + i].op in ('str', 'int', 'vec', 'emptymap')]
                    if lost:
                        R.bad('include', s.where, 'an included file also changes %s' % ', '.join(lost), facts)
                    else:
                        R.unk('include', s.where, 'rules of an included file are added to %s' % pp(m.a[2], 3))
                if m.a[3] is rd:
                    R.ok('include', s.where, 'all of the included file is read')
                elif any(altered(m.a[3], y) for y in walk(m.a[3])):
                    R.bad('include', s.where, 'an included file is read as %s' % pp(m.a[3], 4), facts)
                else:
                    R.unk('include', s.where, 'an included file is read as %s' % pp(m.a[3], 4))
            elif m is p0 and is_err(v):
                R.ok('include', s.where, 'a file that cannot be read is an error')
            elif m is p0 and is_ok(v):
                E_ = E.decide(st, Eq(discr(raw('app', 'std::fs::read_to_string', p1)), Int(1)))
                (R.bad if E_ == 1 else R.unk)('include', s.where, 'a file to be included is passed over', *((facts,) if E_ == 1 else ()))
            else:
                R.unk('include', s.where, 'rules become %s' % pp(m, 3))
        if not n:
            R.unk('include', s.where, 'no case where the file is read')

    R.section('settings', table)
    R.section('included', included)
    R.section('lines', lambda: rulefile.check(ana, R, 'lines'))
