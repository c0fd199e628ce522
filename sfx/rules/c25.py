"""A written entry has every part, in the form the reader takes it apart.

The text templates of the writer (entry, posting, cost and amount), one per
partition of what is present, against the reader's: which word is the date,
what marks payee, comment, cost and balance, where an amount ends. Both sides
are derived from the source; a marker changed on one side only is a violation."""
import re
from fractions import Fraction
from ..base import *
from ..acc import base_it, plain
from ..rulefile import strip_trim, trimmed
from .c20 import appn, mentions

AP = 'amount::Amount::parse'
PLUS = 1 << 21
SIGNS = {'Pending': '?', 'Cleared': '~', 'Reconciled': '*'}


def toks(t):
    """text -> [('lit', str) | ('val', term, [options])]"""
    out = []

    def go(x, opts):
        if x.op == 'cat':
            for y in x.a:
                go(y, opts)
        elif x.op == 'str':
            if x.a[0] == '':
                return
            if out and out[-1][0] == 'lit':
                out[-1] = ('lit', out[-1][1] + x.a[0])
            else:
                out.append(('lit', x.a[0]))
        elif x.op == 'pad':
            go(x.a[0], opts + [x.a[1]])
        else:
            out.append(('val', x, opts))
    go(t, [])
    return out


def split(ts):
    """literals around values: [lit0, val1, lit1, val2, ..., litn]"""
    lits, vals = [''], []
    for t in ts:
        if t[0] == 'lit':
            lits[-1] += t[1]
        else:
            vals.append(t)
            lits.append('')
    return lits, vals


def cut_opts(opts):
    """Does a format option cut a text short?"""
    for o in opts:
        if o and o[0] == 'w?':
            continue
        for x in o:
            if isinstance(x, tuple) and x[0] == 'prec':
                return x[1]
    return None


def plus(opts):
    for o in opts:
        fl = o[1] if o and o[0] == 'w?' else dict(x for x in o if isinstance(x, tuple)).get('flags')
        if fl and fl & PLUS:
            return True
    return False


def build(ana, R, marks, full=False):
    """The sections; with full=True the reader is judged by the marks given, whatever order parts come in."""
    p0, p1, p2 = Sym('P0'), Sym('P1'), Sym('P2')
    F = lambda x, f: raw('fld', x, f)

    def shown(fn):
        """[(state, text written)] of a Display implementation"""
        s = ana.summ(fn, inline=(fn,))
        out = []
        for st, v in s.outs:
            m = ana.mem(st, 1)
            if v.op == 'agg' and v.a[1] == 1:
                continue
            if m is None or m.op != 'cat' and m is not p1:
                raise Unknown('%s writes %s' % (fn, pp(m, 3) if m is not None else '?'))
            if m is p1:
                out.append((st, Str('')))
            elif m.a[0] is p1:
                out.append((st, raw('cat', *m.a[1:]) if len(m.a) > 2 else m.a[1]))
            else:
                raise Unknown('%s writes %s' % (fn, pp(m, 3)))
        return s, out

    # ------------------------------------------------------------ amounts
    def amount():
        ana.need_fields('amount::Amount', 'mag', 'symbol')
        s, outs = shown('<amount::Amount as std::fmt::Display>::fmt')
        mag, sym = F(p0, 'mag'), payload(F(p0, 'symbol'))
        for st, t in outs:
            lits, vals = split(toks(t))
            fs = facts_str(st)
            has = E.decide(st, Eq(discr(F(p0, 'symbol')), Int(1)))
            nums = [v for v in vals if v[1].op == 'show' and v[1].a[0] in ('f64', 'f32')]
            syms = [v for v in vals if v[1] is sym]
            rest = [v for v in vals if v not in nums and v not in syms]
            part = [v[1] for v in rest if v[1].op == 'strof' and v[1].a[0].op in ('take', 'from') and num(v[1].a[0].a[1]) is not None and v[1].a[0].a[0].op == 'chars' and v[1].a[0].a[0].a[0] is sym or altered(v[1], sym)]
            if part:
                R.bad('amount', s.where, 'the symbol of an amount is written as %s' % pp(part[0], 5), fs)
                continue
            if rest:
                R.unk('amount', s.where, 'an amount is written with %s' % pp(rest[0][1], 4))
                continue
            if has is None:
                R.unk('amount', s.where, 'symbol not looked at')
                continue
            neg = E.decide(st, Lt(mag, Int(0)))
            if len(nums) == 1:
                j = vals.index(nums[0])
                y = nums[0][1].a[1]
                if y.op == 'abs' and neg == 1 and re.match(r'^\s*-$', lits[j]):
                    # the sign written by hand
                    lits[j] = lits[j][:-1]
                    nums[0] = ('val', raw('show', 'f64', y.a[0]), nums[0][2])
                elif y.op == 'abs' and neg == 0 and not lits[j].strip():
                    nums[0] = ('val', raw('show', 'f64', y.a[0]), nums[0][2])
            if any(l.strip() for l in lits):
                R.bad('amount', s.where, 'an amount is written with the text %s' % ', '.join(repr(l) for l in lits if l.strip()), fs)
                continue
            if len(nums) != 1:
                R.bad('amount', s.where, 'an amount is written with %d numbers' % len(nums), fs)
                continue
            if len(syms) != has:
                R.bad('amount', s.where, 'the symbol of an amount is %s' % ('left out' if has else 'written although there is none'), fs)
                continue
            if has and any(cut_opts(v[2]) is not None for v in syms):
                R.bad('amount', s.where, 'the symbol of an amount is cut short', fs)
                continue
            x = nums[0][1].a[1]
            pr = cut_opts(nums[0][2])
            if nums[0][1].a[0] == 'f32':
                R.bad('amount', s.where, 'a magnitude is written in single precision', fs)
            elif pr is not None and pr < 8:
                R.bad('amount', s.where, 'a magnitude is written with %d decimals' % pr, fs)
            elif x is mag:
                R.ok('amount', s.where, 'number and symbol are written')
            else:
                # round(10^n * mag) / 10^n
                r = [y for y in walk(x) if appn(y, 'round')]
                k = None
                if len(r) == 1:
                    d = coeff(x, r[0])
                    m = coeff(r[0].a[-1], mag)
                    if d is not None and m is not None and d * m == 1:
                        k = m
                if k is not None:
                    R.check(k >= 10 ** 8, 'amount', s.where, 'a magnitude is written rounded to 1/%s' % k, fs)
                elif plain(x) or all(y.op in ('lin', 'mul', 'div', 'int', 'num', 'abs') or y is mag or y is p0 or appn(y, 'round', 'abs', 'floor', 'ceil', 'trunc') for y in walk(x)):
                    if E.decide(st, Eq(x, mag)) == 1:
                        R.ok('amount', s.where, 'number and symbol are written')
                    elif x.op == 'abs' and E.decide(st, Lt(mag, Int(0))) == 0:
                        R.ok('amount', s.where, 'number and symbol are written')
                    else:
                        R.bad('amount', s.where, 'the number written is %s' % pp(x, 5), fs)
                else:
                    R.unk('amount', s.where, 'the number written is %s' % pp(x, 5))

    def coeff(t, x):
        """c with t == c * x"""
        if t is x:
            return Fraction(1)
        d = add(t, Int(0))
        if d.op == 'lin' and num(raw('lin', d.a[0], ())) in (0, None) and len(d.a[1]) == 1 and d.a[0] == 0:
            (y, c), = d.a[1]
            if y is x:
                return Fraction(c)
        return None

    # ------------------------------------------------------------ postings
    def isamt(v, x):
        """is this value the amount x? True / False / None; notes what is wrong"""
        t = v[1]
        return t.op == 'show' and t.a[0] == 'amount::Amount' and t.a[1] is x

    def cost():
        s, outs = shown('<posting::Cost as std::fmt::Display>::fmt')
        vs = ana.adt('posting::Cost')['variants']
        pre = {}
        for st, t in outs:
            d = [i for i in range(len(vs)) if E.decide(st, Eq(discr(p0), Int(i))) == 1]
            if len(d) != 1:
                raise Unknown('kind of cost not looked at')
            nm = vs[d[0]]['name']
            lits, vals = split(toks(t))
            a = F(p0, '%s.0' % nm)
            if len(vals) == 1 and isamt(vals[0], a) and not lits[1].strip():
                pre[nm] = lits[0]
                if plus(vals[0][2]):
                    R.bad('posting', s.where, 'an amount is written with a plus sign', facts_str(st))
                R.ok('posting', s.where, 'a cost is written with its mark and its amount')
            elif not vals or len(vals) == 1 and lits[1].strip() and isamt(vals[0], a):
                R.bad('posting', s.where, 'a cost is written as %s' % pp(t, 4), facts_str(st))
            else:
                raise Unknown('cost written as %s' % pp(t, 4))
        return pre

    def posting(pre):
        PA = 'posting::Posting::as_parsable'
        s = ana.summ(PA, inline=(PA,))
        texts = []
        for st, v in s.outs:
            if v is raw('show', 'posting::Posting', p0):
                s2, o = shown('<posting::Posting as std::fmt::Display>::fmt')
                texts += [(s2, st2, t) for st2, t in o]
            elif v.op in ('cat', 'pad', 'str'):
                texts.append((s, st, v))
            else:
                raise Unknown('posting written as %s' % pp(v, 3))
        ana.need_fields('posting::ClassicPosting', 'amount', 'account', 'cost_assertion', 'balance_assertion')
        ana.need_fields('posting::EnvelopePosting', 'amount', 'account_name', 'envelope_name')
        vs = [v['name'] for v in ana.adt('posting::Posting')['variants']]
        for s_, st, t in texts:
            fs = facts_str(st)
            kind = [vs[i] for i in range(len(vs)) if E.decide(st, Eq(discr(p0), Int(i))) == 1]
            if len(kind) != 1:
                R.unk('posting', s_.where, 'kind of posting not looked at')
                continue
            c = F(p0, kind[0] + '.0')
            lits, vals = split(toks(t))
            exp = []
            if kind[0] == 'Envelope':
                exp = [('account', F(c, 'account_name')), ('envelope', F(c, 'envelope_name')), ('amount', F(c, 'amount'))]
            else:
                exp = [('account', F(c, 'account'))]
                und = False
                for nm, f in (('amount', 'amount'), ('cost', 'cost_assertion'), ('balance', 'balance_assertion')):
                    h = E.decide(st, Eq(discr(F(c, f)), Int(1)))
                    if h is None:
                        und = True
                    elif h:
                        exp.append((nm, payload(F(c, f))))
                if und:
                    # not looked at: certainly not written
                    R.bad('posting', s_.where, 'a posting is written without looking at all of its parts', fs) if not any(v[1].op not in ('fld', 'show') for v in vals) and not any(related(st, discr(F(c, f))) for f in ('amount', 'cost_assertion', 'balance_assertion') if E.decide(st, Eq(discr(F(c, f)), Int(1))) is None) and len(vals) < 4 else R.unk('posting', s_.where, 'parts not looked at')
                    continue

            def same(nm, x, v):
                if v[1] is x:
                    return True
                if nm in ('amount', 'balance') and isamt(v, x):
                    return True
                return nm == 'cost' and v[1].op == 'show' and v[1].a[0] == 'posting::Cost' and v[1].a[1] is x
            got = []
            unknown = None
            for v in vals:
                m = [nm for nm, x in exp if same(nm, x, v)]
                if len(m) == 1:
                    got.append(m[0])
                elif v[1].op in ('fld', 'show') and any(y is c for y in walk(v[1])):
                    got.append('?' + pp(v[1], 4))
                else:
                    unknown = v[1]
                    got.append(None)
            if unknown is not None:
                R.unk('posting', s_.where, 'a posting is written with %s' % pp(unknown, 4))
                continue
            names = [nm for nm, _ in exp]
            missing = [n for n in names if n not in got]
            if missing:
                R.bad('posting', s_.where, 'a posting is written without its %s' % ', '.join(missing), fs)
                continue
            if len(got) != len(names):
                R.bad('posting', s_.where, 'a posting is written with %s' % ', '.join(map(str, got)), fs)
                continue
            if any(cut_opts(v[2]) is not None for v in vals):
                R.bad('posting', s_.where, 'a part of a posting is cut short', fs)
                continue
            if any(plus(v[2]) and v[1].op == 'show' for v in vals):
                R.bad('posting', s_.where, 'an amount is written with a plus sign', fs)
                continue
            if kind[0] == 'Envelope':
                if got != names:
                    R.bad('posting', s_.where, 'an envelope posting is written in the order %s' % ', '.join(got), fs)
                elif lits[0].split() != ['envelope'] or not lits[0][-1:].isspace():
                    R.bad('posting', s_.where, 'an envelope posting is written with %r in front' % lits[0], fs)
                elif any(l.strip() for l in lits[1:]) or not lits[1] or not lits[2] and not padded(vals[1]):
                    R.bad('posting', s_.where, 'the parts of an envelope posting are not kept apart by white space only', fs)
                elif any('\n' in l for l in lits):
                    R.bad('posting', s_.where, 'a posting is written on more than one line', fs)
                else:
                    R.ok('posting', s_.where, 'envelope posting: `envelope`, account, envelope, amount')
                continue
            if got[0] != 'account' or 'amount' in got and got[1] != 'amount':
                R.bad('posting', s_.where, 'a posting is written in the order %s' % ', '.join(got), fs)
                continue
            if lits[0].strip() or any('\n' in l for l in lits):
                R.bad('posting', s_.where, 'a posting is written with %r around its parts' % lits[0], fs)
                continue
            okk = True
            for i, nm in enumerate(got):
                l = lits[i]
                if i == 0:
                    continue
                if nm == 'amount':
                    if l.strip() or not l:
                        okk = False
                        R.bad('posting', s_.where, 'account and amount of a posting are kept apart by %r' % l, fs)
                elif nm == 'cost':
                    w = 'cost'
                    for kd, p in pre.items():
                        full = l + p
                        m = re.match(r'^\s+(\S+)\s+$', full)
                        if not m:
                            okk = False
                            R.bad('posting', s_.where, 'a cost is written behind %r' % full, fs)
                        elif marks.setdefault(kd, m.group(1)) != m.group(1):
                            okk = False
                            R.bad('posting', s_.where, 'a cost is marked differently in different cases', fs)
                else:
                    m = re.match(r'^\s+(\S+)\s+$', l)
                    if not m:
                        okk = False
                        R.bad('posting', s_.where, 'a balance is written behind %r' % l, fs)
                    elif marks.setdefault('balance', m.group(1)) != m.group(1):
                        okk = False
                        R.bad('posting', s_.where, 'a balance is marked differently in different cases', fs)
            if lits[-1].strip():
                okk = False
                R.bad('posting', s_.where, 'a posting is written with %r behind it' % lits[-1], fs)
            if okk:
                R.ok('posting', s_.where, 'posting: %s' % ', '.join(got))

    def padded(v):
        return False

    # ------------------------------------------------------------ entries
    def entry():
        n, PA = 'entry::Entry::as_parsable', 'posting::Posting::as_parsable'
        ana.fn(PA)
        ana.need_fields('entry::Entry', 'date', 'status', 'description', 'payee', 'comment', 'postings')
        s = ana.summ(n, inline=(n,), opaque=(PA,))
        P = F(p0, 'postings')
        for st, v in s.outs:
            fs = facts_str(st)
            head, loops = [], []
            parts = list(v.a) if v.op == 'cat' else [v]
            for x in parts:
                if x.op == 'loopval':
                    lp = loop_of(x.a[0])
                    init = dict(lp.inits).get(x.a[1])
                    phi = raw('phi', lp.depth, x.a[1])
                    if init is None or init.op not in ('str', 'cat'):
                        raise Unknown('entry written as %s' % pp(v, 3))
                    head.append(init)
                    lst, start, exact = base_it(lp.it)
                    if lst is not P:
                        raise Unknown('postings written from %s' % pp(lp.it, 3))
                    where = '%s:%s' % lp.where
                    if start != 0 or not exact or lp.it.op == 'irev':
                        R.bad('entry', where, 'not every posting is written, in order', fs)
                    loops.append(lp)
                    el = raw('elem', P, raw('k', lp.depth))
                    for f, u, ev in lp.parts:
                        y = dict(u).get(x.a[1], phi)
                        if y is phi:
                            other = [k for k, _ in f if isinstance(k, T) and k.op != 'more']
                            R.bad('entry', where, 'a posting is not written', fstr(f))
                            continue
                        if not (y.op == 'cat' and y.a[0] is phi):
                            R.unk('entry', where, 'text becomes %s' % pp(y, 4))
                            continue
                        lits, vals = split(toks(raw('cat', *y.a[1:])))
                        if len(vals) != 1 or not (appn(vals[0][1], 'as_parsable') and vals[0][1].a[1] is el or vals[0][1] is raw('show', 'posting::Posting', el)):
                            R.unk('entry', where, 'a posting is written as %s' % pp(y, 4))
                        elif not (lits[0] and lits[0].replace('\n', '') and not lits[0].strip() and lits[0][-1] != '\n'):
                            R.bad('entry', where, 'a posting is not written on an indented line', fstr(f))
                        elif lits[1].strip() or '\n' not in lits[1] and '\n' not in lits[0]:
                            R.bad('entry', where, 'a posting is not written on a line of its own', fstr(f))
                        elif cut_opts(vals[0][2]) is not None:
                            R.bad('entry', where, 'a posting is cut short', fstr(f))
                        else:
                            R.ok('entry', where, 'every posting on an indented line of its own')
                elif loops:
                    if x.op == 'str' and not x.a[0].strip():
                        continue
                    if x.op == 'str':
                        R.bad('entry', s.where, 'text behind the postings: %r' % x.a[0], fs)
                    else:
                        raise Unknown('text behind the postings: %s' % pp(x, 3))
                else:
                    head.append(x)
            if len(loops) != 1:
                empty = E.decide(st, Eq(raw('len', P), Int(0)))
                if empty == 1:
                    pass
                elif not any(mentions(x, P) for x in parts) and all(known(x) for x in parts) and not related(st, Eq(raw('len', P), Int(0))):
                    R.bad('entry', s.where, 'the postings are not written', fs)
                    continue
                else:
                    raise Unknown('postings not recognised')
            has = {}
            for f in ('payee', 'comment'):
                has[f] = E.decide(st, Eq(discr(F(p0, f)), Int(1)))
            exp = [('date', None), ('status', None), ('description', F(p0, 'description'))]
            for f in ('payee', 'comment'):
                if has[f]:
                    exp.append((f, payload(F(p0, f))))
            lits, vals = split(toks(raw('cat', *head) if len(head) > 1 else head[0]))
            got, bad, unk = [], None, None
            sts = [x['name'] for x in ana.adt('entry::EntryStatus')['variants']]
            sti = [i for i in range(len(sts)) if E.decide(st, Eq(discr(F(p0, 'status')), Int(i))) == 1]
            if len(sti) == 1 and len(vals) > 1:
                # the sign itself, case by case
                m = re.match(r'^([ \t]+)(\S)([ \t]+)$', lits[1])
                if m:
                    if m.group(2) != SIGNS.get(sts[sti[0]]):
                        R.bad('entry', s.where, 'the status %s is written `%s`' % (sts[sti[0]], m.group(2)), fs)
                        continue
                    lits[1:2] = [m.group(1), m.group(3)]
                    vals.insert(1, ('val', raw('show', 'entry::EntryStatus', F(p0, 'status')), []))
            for v_ in vals:
                x = v_[1]
                if x.op == 'show' and 'DelayedFormat' in x.a[0] or appn(x, 'format', 'to_string') and any(appn(y, 'format') for y in walk(x)):
                    fm = [y for y in walk(x) if appn(y, 'format')][0]
                    if fm.a[1] is F(p0, 'date') and fm.a[2] is p1:
                        got.append('date')
                    elif fm.a[1] is F(p0, 'date') and fm.a[2].op == 'str':
                        bad = 'the date is written in the fixed format %s' % pp(fm.a[2])
                    else:
                        unk = x
                elif x is raw('show', 'entry::EntryStatus', F(p0, 'status')) or x.op == 'chr' and appn(x.a[0], 'to_char') or x is raw('chr', raw('app', 'entry::EntryStatus::to_char', F(p0, 'status'))):
                    got.append('status')
                elif x.op == 'show' and 'NaiveDate' in x.a[0] and x.a[1] is F(p0, 'date'):
                    bad = 'the date is not written in the journal\'s format'
                elif any(x is y for _, y in exp):
                    got.append([nm for nm, y in exp if y is x][0])
                elif x.op == 'fld' and any(y is p0 for y in walk(x)):
                    got.append(pp(x))
                else:
                    unk = x
            if unk is not None:
                R.unk('entry', s.where, 'an entry is written with %s' % pp(unk, 4))
                continue
            if bad:
                R.bad('entry', s.where, bad, fs)
                continue
            und = [f for f in ('payee', 'comment') if has[f] is None]
            if und:
                if not any(related(st, discr(F(p0, f))) for f in und):
                    R.bad('entry', s.where, 'an entry is written without its %s' % ', '.join(und), fs)
                else:
                    R.unk('entry', s.where, '%s not looked at' % und)
                continue
            names = [nm for nm, _ in exp]
            if got != names:
                miss = [x for x in names if x not in got]
                R.bad('entry', s.where, 'an entry is written without its %s' % ', '.join(miss) if miss else 'an entry is written as %s' % ', '.join(got), fs)
                continue
            if any(cut_opts(v_[2]) is not None for v_ in vals):
                R.bad('entry', s.where, 'a part of an entry is cut short', fs)
                continue
            rules = [('before the date', r'^$'), ('between date and status', r'^[ \t]+$'), ('between status and description', r'^[ \t]+$')]
            if has['payee']:
                rules.append(('before the payee', r'^[ \t]*\[[ \t]*$'))
            if has['comment']:
                rules.append(('before the comment', r'^[ \t]*%s[ \t]*(//|;).*$' % (r'\]' if has['payee'] else '')))
            rules.append(('behind the header', r'^%s[ \t]*\n\s*$' % (r'[ \t]*\]' if has['payee'] and not has['comment'] else '')))
            for (w, r), l in zip(rules, lits):
                if w == 'behind the header' and loops and '\n' not in l:
                    # the line break may come with the postings
                    ok2 = all(dict(u).get(x.a[1]) is not None for x in parts if x.op == 'loopval' for f, u, ev in loop_of(x.a[0]).parts) and any(toks(raw('cat', *dict(u)[x.a[1]].a[1:]))[0][1].startswith('\n') for x in parts if x.op == 'loopval' for f, u, ev in loop_of(x.a[0]).parts if dict(u)[x.a[1]].op == 'cat' and toks(raw('cat', *dict(u)[x.a[1]].a[1:]))[0][0] == 'lit')
                    if ok2 and re.match(r.replace('\\n', ''), l):
                        R.ok('entry', s.where, w)
                        continue
                R.check(re.match(r, l) is not None, 'entry', s.where, '%s: %r' % (w, l), fs)

    # ------------------------------------------------------------ the reader
    def header():
        n = 'entry::Entry::parse_header'
        s = ana.summ(n, inline=(n,), opaque=('utils::remove_comments',))
        ef = ana.adt('entry::Entry')['variants'][0]['fields']
        for st, v in s.outs:
            if not is_ok(v) or v.a[2].op != 'agg':
                continue
            fs = facts_str(st)
            e = dict(zip(ef, v.a[2].a[2:]))
            W = None
            d = e['date']
            if d.op == 'fld' and appn(d.a[0], 'parse_from_str') and d.a[0].a[1].op == 'elem' and d.a[0].a[1].a[0].op == 'words':
                W = d.a[0].a[1].a[0]
            if W is None or strip_trim(W.a[0]) not in (p0, raw('app', 'utils::remove_comments', p0)):
                R.unk('header', s.where, 'date read from %s' % pp(d, 4))
                continue
            J = [y for y in walk(e['description']) if appn(y, 'join')]
            if not J:
                R.unk('header', s.where, 'description %s' % pp(e['description'], 4))
                continue
            J = J[0]
            fr = J.a[1]
            if fr.op == 'take' and num(fr.a[1]) is not None and fr.a[0].op == 'from' and fr.a[0].a[0] is W:
                R.bad('header', s.where, 'only %d words of the description are read' % num(fr.a[1]), fs)
                continue
            c = comp(fr)
            if c is not None:
                # the words are collected one by one
                l, at, ex = base_it(c.lp.it)
                if not (ex and l is W and c.init.op == 'vec' and not c.init.a and at is not None):
                    R.unk('header', s.where, 'description %s' % pp(e['description'], 4))
                    continue
                if isinstance(at, T) and num(at) is not None:
                    at = num(at)
                if isinstance(at, T):
                    R.unk('header', s.where, 'description %s' % pp(e['description'], 4))
                    continue
                el = E.elem_of(W, add(raw('k', c.lp.depth), Int(at)))
                wrong = None
                for f, add_ in c.rows:
                    if [x for kind, x in add_] in ([el], [E.elem_of(W, raw('k', c.lp.depth))]) or len(add_) == 1 and add_[0][1].op == 'elem' and add_[0][1].a[0].op == 'from' and add_[0][1].a[0].a[0] is W and add_[0][1].a[1] is raw('k', c.lp.depth):
                        continue
                    about = [q for q, z in f if isinstance(q, T) and q.op not in ('more',) and not q.op == 'lt']
                    wrong = wrong or ('bad', f) if not add_ and about and all(appn(q, 'starts_with', 'ends_with', 'contains') and any(y is W for y in walk(q)) for q in about) else ('unk', f)
                if wrong:
                    (R.bad if wrong[0] == 'bad' else R.unk)('header', s.where, 'words of the description are left out', fstr(wrong[1])) if wrong[0] == 'bad' else R.unk('header', s.where, 'description %s' % pp(e['description'], 4))
                    continue
                fr = raw('from', W, at)
            if not (fr.op == 'from' and fr.a[0] is W):
                R.unk('header', s.where, 'description %s' % pp(e['description'], 4))
                continue
            k = fr.a[1] if not isinstance(fr.a[1], T) else num(fr.a[1])
            if k != 2:
                say(k is not None, 'header', s.where, 'the description starts at word %s' % k, fs)
                continue
            op = raw('app', 'str::find', J, Int(91))
            opens = [y for q in st.facts if isinstance(q, T) for y in walk(q) if appn(y, 'find') and y.a[1] is J]
            opens = [y for y in opens if y.a[2] in (Int(91), Str('['))]
            if not opens:
                if e['payee'] is NONE and e['description'] is J and not related(st, Eq(J, Str(''))):
                    R.bad('header', s.where, 'a payee is not looked for', fs)
                else:
                    R.unk('header', s.where, 'payee not recognised')
                continue
            o = opens[0]
            h = E.decide(st, Eq(discr(o), Int(1)))
            if h == 0:
                if e['payee'] is NONE and strip_trim(e['description']) is J:
                    R.ok('header', s.where, 'without `[`, all of it is the description')
                elif e['payee'] is NONE:
                    d_ = strip_trim(e['description'])
                    if d_.op == 'elem' and d_.a[0].op == 'splits' and strip_trim(d_.a[0].a[0]) is J and d_.a[0].a[-1].op in ('str', 'int') and d_.a[0].a[-1] not in (Int(91), Str('[')) or appn(d_, 'to_lowercase', 'to_uppercase') and d_.a[1] is J:
                        R.bad('header', s.where, 'the description is %s' % pp(d_, 5), fs)
                    else:
                        R.unk('header', s.where, 'description %s' % pp(e['description'], 4))
                else:
                    R.unk('header', s.where, 'payee %s' % pp(e['payee'], 4))
                continue
            i = payload(o)
            de, pa = e['description'], e['payee']
            if pa is NONE and h == 1 and any(appn(y, 'rfind', 'find') and y.a[1] is J and y.a[2] in (Int(93), Str(']')) and E.decide(st, Eq(discr(y), Int(1))) == 1 and E.decide(st, Lt(i, payload(y))) == 1 for q in st.facts if isinstance(q, T) for y in walk(q)):
                R.bad('header', s.where, 'a payee in square brackets is not read', fs)
                continue
            if pa is NONE:
                R.bad('header', s.where, 'a payee in square brackets is not read', fs) if h == 1 and not any(appn(y, 'rfind', 'find') and y is not o for q in st.facts if isinstance(q, T) for y in walk(q)) else R.unk('header', s.where, 'no payee in a case')
                continue
            pt = strip_trim(payload_of(pa))
            dt = strip_trim(de)
            if not (dt.op == 'sub' and dt.a[0] is J and pt.op == 'sub' and pt.a[0] is J):
                R.unk('header', s.where, 'description %s, payee %s' % (pp(de, 4), pp(pa, 4)))
                continue
            end = pt.a[2]
            if dt.a[2] is not i:
                say(plain2(dt.a[2], i) or rlook(dt.a[2], J), 'header', s.where, 'the description ends at %s' % pp(dt.a[2], 4), fs)
            elif pt.a[1] is not add(i, Int(1)):
                say(plain2(pt.a[1], i), 'header', s.where, 'the payee starts at %s' % pp(pt.a[1], 4), fs)
            elif end.op == 'fld' and end.a[1] == 'Some.0' and appn(end.a[0], 'rfind', 'find') and end.a[0].a[1] is J and end.a[0].a[2] in (Int(93), Str(']')):
                R.ok('header', s.where, 'the payee is what is between the brackets')
            elif end.op == 'lin' or end.op == 'len':
                R.bad('header', s.where, 'the payee ends at %s' % pp(end, 4), fs)
            else:
                R.unk('header', s.where, 'the payee ends at %s' % pp(end, 4))

    def payload_of(o):
        return o.a[2] if o.op == 'agg' and len(o.a) > 2 else o

    def known(t):
        """text of which every piece is understood"""
        return all(y.op in ('cat', 'str', 'pad', 'fld', 'show', 'chr', 'sym', 'loopval', 'loop') or appn(y, 'format', 'to_string', 'to_char', 'trim') for y in walk(t))

    def say(definite, rule, where, msg, fs):
        if definite:
            R.bad(rule, where, msg, fs)
        else:
            R.unk(rule, where, msg)

    def rlook(t, J):
        """the place of a last bracket, where the first is meant"""
        return t.op == 'fld' and appn(t.a[0], 'rfind') and t.a[0].a[1] is J and t.a[0].a[2] in (Int(91), Str('['), Int(93), Str(']'))

    def plain2(t, i):
        return t is i or t.op == 'lin' and any(y is i for y in walk(t))

    def reader():
        n = 'posting::ClassicPosting::parse'
        s = ana.summ(n, inline=(n,), opaque=(AP, 'utils::remove_comments'))
        cf = ana.adt('posting::ClassicPosting')['variants'][0]['fields']
        costs = [v['name'] for v in ana.adt('posting::Cost')['variants']]
        nok = 0
        want = {'UnitCost': marks.get('UnitCost'), 'TotalCost': marks.get('TotalCost'), 'balance': marks.get('balance')}

        def marker(st, L):
            """strings searched for by loop L (over tokens)"""
            lp = loop_of(L)
            if lp.inits or len(lp.parts) != 1:
                return None
            ms = set()
            for k, z in lp.parts[0][0]:
                if not isinstance(k, T) or k.op == 'more':
                    continue
                if k.op == 'elem' and z[0] == '!':
                    ms |= set(x.a[0] if isinstance(x, T) else x for x in z[1])
                elif k.op == 'eq' and z == ('=', 0):
                    c = [x.a[0] for x in k.a if x.op == 'str']
                    if not c:
                        return None
                    ms |= set(c)
                else:
                    return None
            return ms

        def from_tokens(t):
            """text of an amount -> (marker set in front or None, stop set or None, tokens, ok)"""
            if appn(t, 'join'):
                t = t.a[1]
            elif t.op == 'strof':
                t = t.a[0]
            else:
                return None
            stop = start = None
            if t.op == 'take':
                c = t.a[1]
                if c.op != 'hitpos':
                    return None
                stop = c.a[0]
                t = t.a[0]
            off = 0
            while t.op == 'from':
                c = t.a[1]
                if isinstance(c, T) and num(c) is None:
                    if c.op == 'lin' and len(c.a[1]) == 1 and c.a[0] == 1 and c.a[1][0][0].op == 'hitpos':
                        start = c.a[1][0][0].a[0]
                    elif c.op == 'after':
                        start = c.a[0]
                    else:
                        return None
                else:
                    off += c if not isinstance(c, T) else num(c)
                t = t.a[0]
            return start, stop, t, off
        seen = {}
        for st, v in s.outs:
            if not is_ok(v) or v.a[2].op != 'agg':
                continue
            nok += 1
            fs = facts_str(st, 30)
            p = dict(zip(cf, v.a[2].a[2:]))
            acc = p['account']
            if not (acc.op == 'elem' and acc.a[0].op == 'words' and strip_trim(acc.a[0].a[0]) in (p0, raw('app', 'utils::remove_comments', p0))):
                if any(altered(acc, y) for y in walk(acc) if y.op == 'elem' and y.a[0].op == 'words'):
                    R.bad('reader', s.where, 'the account of a posting becomes %s' % pp(acc, 4), fs)
                else:
                    R.unk('reader', s.where, 'account %s' % pp(acc, 4))
                continue
            W = acc.a[0]
            if acc.a[1] is not Int(0):
                R.bad('reader', s.where, 'the account is not the first word of a posting', fs)
                continue
            searches = {}
            for k in st.facts:
                if isinstance(k, T) and k.op == 'found':
                    ms = marker(st, k.a[0])
                    if ms:
                        searches[k.a[0]] = (ms, E.decide(st, k))
            for nm, x in (('amount', p['amount']), ('cost', p['cost_assertion']), ('balance', p['balance_assertion'])):
                kind = nm
                if x is not NONE and not (x.op == 'agg' and x.a[0] == OPT):
                    R.unk('reader', s.where, '%s %s' % (nm, pp(x, 3)))
                    continue
                if x is NONE:
                    kinds = costs if nm == 'cost' else [nm]
                    if nm == 'amount':
                        empty = [k.a[0] for k, z in st.facts.items() if isinstance(k, T) and k.op == 'len' and z == ('=', 0)]
                        if empty and all(any(altered(y, z) for y in walk(k) for z in walk(y) if z is not y) for k in empty):
                            R.bad('reader', s.where, 'an amount is taken for none because of %s' % pp(empty[0], 4), fs)
                        elif empty:
                            R.ok('reader', s.where, 'no amount, where there is no text for one')
                        else:
                            R.unk('reader', s.where, 'no amount in a case: %s' % fs)
                        continue
                    for kd in kinds:
                        m = want.get(kd)
                        if m is None:
                            continue
                        f = [d for L, (ms, d) in searches.items() if ms == {m} and whole(L, W)]
                        if any(d == 1 for d in f) and not any(d == 0 for d in f):
                            R.bad('reader', s.where, 'a %s marked `%s` is not read' % (kd, m), fs)
                        elif any(d == 0 for d in f):
                            R.ok('reader', s.where, 'no %s, where there is no `%s`' % (kd, m))
                        elif searches and not f:
                            others = [ms for ms, d in searches.values() if len(ms) == 1]
                            key = ('missing', kd)
                            if key not in seen:
                                seen[key] = 1
                                say(len(searches) >= 3 or not related_tokens(st, W, m), 'reader', s.where, 'a %s is written behind `%s`, which the reader does not look for' % (kd, m), fs)
                    continue
                y = x.a[2]
                if nm == 'cost':
                    if y.op != 'agg' or y.a[1] >= len(costs):
                        R.unk('reader', s.where, 'cost %s' % pp(y, 3))
                        continue
                    kind = costs[y.a[1]]
                    y = y.a[2]
                if not (y.op == 'fld' and y.a[1] == 'Ok.0' and y.a[0].op == 'app' and y.a[0].a[0] == AP):
                    R.unk('reader', s.where, '%s %s' % (nm, pp(y, 4)))
                    continue
                r = from_tokens(y.a[0].a[1])
                tk = y.a[0].a[1].a[1] if appn(y.a[0].a[1], 'join') else None
                if r is None and nm == 'amount' and tk is not None and tk.op == 'take' and tk.a[1].op == 'lin' and len(tk.a[1].a[1]) == 2 and tk.a[1].a[0] == -1 and {(q.op, c) for q, c in tk.a[1].a[1]} == {('len', 1), ('hitpos', -1)}:
                    L = [q for q, c in tk.a[1].a[1] if q.op == 'hitpos'][0].a[0]
                    if len(searches.get(L, ((), 0))[0]) > 1:
                        R.bad('reader', s.where, 'the amount of a posting goes on to the last mark', fs)
                        continue
                if r is None or r[2] is not W:
                    R.unk('reader', s.where, '%s read from %s' % (nm, pp(y.a[0].a[1], 4)))
                    continue
                start, stop, _, off = r
                sm = searches.get(start, (None, None))[0] if start is not None else None
                em = searches.get(stop, (None, None))[0] if stop is not None else None
                if nm == 'amount':
                    if off != 1 or start is not None:
                        R.bad('reader', s.where, 'the amount is not read from behind the account', fs)
                        continue
                    cut = set()
                    for L, (ms, d) in searches.items():
                        if whole(L, W) and (L is stop or d == 0):
                            cut |= ms
                    need = set(x for x in marks.values())
                    miss = need - cut
                    if stop is not None and em is None:
                        R.unk('reader', s.where, 'end of the amount not recognised')
                    elif miss:
                        R.bad('reader', s.where, 'the amount of a posting goes on past `%s`' % '`, `'.join(sorted(miss)), fs)
                    else:
                        R.ok('reader', s.where, 'the amount ends at the first mark')
                    continue
                if sm is None or len(sm) != 1:
                    R.unk('reader', s.where, '%s read from %s' % (nm, pp(y.a[0].a[1], 4)))
                    continue
                got = list(sm)[0]
                m = want.get(kind)
                if m is not None and got != m:
                    R.bad('reader', s.where, 'a %s is written behind `%s` and read behind `%s`' % (kind, m, got), fs)
                    continue
                part = [L for L in searches if (L is stop or searches[L][1] == 0) and partial(L)]
                if part:
                    R.bad('reader', s.where, 'the end of a %s is not looked for in all that follows it: %s' % (kind, pp(loop_of(part[0]).it)[:80]), fs)
                    continue
                after = {'cost': {marks.get('balance')}, 'balance': set()}[nm] - {None}
                if full:
                    after = set(marks.values()) - {m}
                stops = set()
                for L, (ms, d) in searches.items():
                    if L is stop or d == 0 and not whole(L, W):
                        stops |= ms
                    elif d == 0:
                        stops |= ms
                if stop is not None and em is None:
                    R.unk('reader', s.where, 'end of the %s not recognised' % nm)
                elif after - stops:
                    R.bad('reader', s.where, 'a %s goes on past `%s`' % (kind, '`, `'.join(after - stops)), fs)
                else:
                    R.ok('reader', s.where, '%s behind its mark, up to the next' % kind)
        if not nok:
            R.unk('reader', s.where, 'no posting accepted')

    def partial(L):
        """a search in what follows a mark, that passes over some of it or counts from its end"""
        it = loop_of(L).it
        if it is None:
            return False
        back = it.op == 'irev'
        if back:
            it = it.a[0]
        if it.op not in ('it', 'itm'):
            return False
        l, cut = it.a[0], back or (num(it.a[1]) if isinstance(it.a[1], T) else it.a[1]) not in (0, None)
        while isinstance(l, T) and l.op in ('take', 'from') and (not isinstance(l.a[1], T) or num(l.a[1]) is not None):
            cut = cut or l.op == 'take' or (num(l.a[1]) if isinstance(l.a[1], T) else l.a[1]) != 0
            l = l.a[0]
        return bool(cut) and isinstance(l, T) and l.op == 'from'

    def whole(L, W):
        """does this search run over all tokens behind the account?"""
        lst, start, exact = base_it(loop_of(L).it)
        if lst is None or not exact:
            return False
        while lst.op == 'from':
            c = lst.a[1]
            if isinstance(c, T) and num(c) is None:
                return False
            lst = lst.a[0]
        return lst is W

    def related_tokens(st, W, m):
        return [k for k in st.facts if isinstance(k, T) and any(y.op == 'str' and y.a[0] == m for y in walk(k))]

    def envelope():
        n = 'posting::EnvelopePosting::parse'
        s = ana.summ(n, inline=(n,), opaque=(AP,))
        ff = ana.adt('posting::EnvelopePosting')['variants'][0]['fields']
        for st, v in s.outs:
            if not is_ok(v) or v.a[2].op != 'agg':
                continue
            p = dict(zip(ff, v.a[2].a[2:]))
            fs = facts_str(st)
            W = None
            for f, i in (('account_name', 1), ('envelope_name', 2)):
                x = p[f]
                if x.op == 'elem' and x.a[0].op == 'words' and strip_trim(x.a[0].a[0]) in (p0, raw('app', 'utils::remove_comments', p0)) and num(x.a[1]) is not None:
                    W = x.a[0]
                    R.check(num(x.a[1]) == i, 'reader', s.where, 'the %s of an envelope posting is word %d' % (f, num(x.a[1]) + 1), fs)
                else:
                    R.unk('reader', s.where, '%s %s' % (f, pp(x, 4)))
            a = p['amount']
            if a.op == 'fld' and a.a[1] == 'Ok.0' and a.a[0].op == 'app' and a.a[0].a[0] == AP:
                t = a.a[0].a[1]
                t = t.a[1] if appn(t, 'join') else t.a[0] if t.op == 'strof' else t
                if t.op == 'from' and t.a[0] is W:
                    k = t.a[1] if not isinstance(t.a[1], T) else num(t.a[1])
                    R.check(k == 3, 'reader', s.where, 'the amount of an envelope posting is from word %s on' % (k + 1), fs) if k is not None else R.unk('reader', s.where, pp(t, 3))
                elif t.op == 'elem' and t.a[0] is W:
                    R.bad('reader', s.where, 'only one word of the amount of an envelope posting is read', fs)
                elif t.op == 'take' and num(t.a[1]) is not None and t.a[0].op == 'from' and t.a[0].a[0] is W:
                    R.bad('reader', s.where, 'only %d words of the amount of an envelope posting are read' % num(t.a[1]), fs)
                else:
                    R.unk('reader', s.where, 'amount %s' % pp(t, 4))
            else:
                R.unk('reader', s.where, 'amount %s' % pp(a, 4))
        n = 'posting::Posting::parse'
        EP, CP = 'posting::EnvelopePosting::parse', 'posting::ClassicPosting::parse'
        s = ana.summ(n, inline=(n,), opaque=(EP, CP, 'utils::remove_comments'))
        for st, v in s.outs:
            ev = [e for e, il, _ in events(st.ev) if e[0] in (EP, CP)]
            if len(ev) != 1:
                continue
            e = ev[0]
            t = e[1]
            if strip_trim(t) not in (p0, raw('app', 'utils::remove_comments', p0)):
                R.unk('reader', evline(e), 'posting read from %s' % pp(t, 4))
                continue
            d = None
            for k, z in st.facts.items():
                if isinstance(k, T) and k.op == 'elem' and k.a[0].op == 'words' and k.a[1] is Int(0):
                    vs_ = [x.a[0] if isinstance(x, T) else x for x in (z[1] if z[0] != '=' else (z[1],))]
                    if z[0] == '=':
                        d = vs_[0] == 'envelope'
                    elif z[0] == '!' and 'envelope' in vs_:
                        d = False
            if d is None:
                pre = [(k.a[2].a[0], z) for k, z in st.facts.items() if appn(k, 'starts_with') and k.a[1].op == 'elem' and k.a[1].a[0].op == 'words' and k.a[1].a[1] is Int(0) and k.a[2].op == 'str']
                if len(pre) == 1 and 'envelope'.startswith(pre[0][0]) and pre[0][1] in (('=', 0), ('=', 1)):
                    if pre[0][1][1]:
                        R.bad('reader', evline(e), 'a posting whose first word starts with `%s` is taken for an envelope posting' % pre[0][0] if e[0] == EP else 'an envelope posting is not read as one', facts_str(st))
                    else:
                        R.check(e[0] == CP, 'reader', evline(e), 'any other posting is an ordinary one', facts_str(st))
                    continue
            if d is None:
                R.unk('reader', evline(e), 'kind of posting: %s' % facts_str(st))
            else:
                R.check(d == (e[0] == EP), 'reader', evline(e), 'a posting whose first word is `envelope` is an envelope posting, no other is', facts_str(st))

    def all_postings():
        pre = cost()
        posting(pre)
        reader()

    return dict(amount=amount, posting=all_postings, entry=entry, header=header, reader=reader, envelope=envelope)


def run(ana, R):
    b = build(ana, R, {})
    R.section('amount', b['amount'])
    R.section('posting', b['posting'])
    R.section('entry', b['entry'])
    R.section('header', b['header'])
    R.section('reader', b['envelope'])
