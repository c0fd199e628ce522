"""The rules file reader (Rules::add_from_str): where each line of a rules file ends up.

Shared by C20 (blocks of conditional rules) and C21 (settings)."""
from .base import *

AL = 'importer::Rules::add_from_line'


def trimmed(t):
    """'trim' | 'trim_start' | 'trim_end' | None"""
    return t.a[0] if t.op == 'app' and t.a[0] in ('trim', 'trim_start', 'trim_end') else None


def strip_trim(t):
    while trimmed(t):
        t = t.a[1]
    return t


def blankness(facts, line):
    """1 / 0 / None: is this line known blank? Facts about the length of any trimmed form of it, or of
    its characters, settle it (a line that only trims to nothing on one side is blank on the other)."""
    out = None
    for k, v in facts:
        if not isinstance(k, T):
            continue
        x = k
        if x.op == 'lt' and num(x.a[0]) == 0:
            x = x.a[1]
            pos = True
        else:
            pos = False
        if x.op != 'len':
            continue
        y = x.a[0]
        if y.op == 'chars':
            y = y.a[0]
        if strip_trim(y) is not line:
            continue
        cut = y is not line
        if pos:
            z = 0 if v == ('=', 1) else 1 if v == ('=', 0) else None
        else:
            z = 1 if v == ('=', 0) else 0 if v[0] == '!' and 0 in v[1] else 0 if v[0] == '=' and v[1] != 0 else None
        if z is None or z == 0 and not cut:
            continue
        if out is not None and out != z:
            return 'no'
        out = z
    return out


def first_word_if(facts, line):
    """1 / 0 / None: is `if` the first word of the (trimmed at the end, not blank) line?"""
    res = None
    for k, v in facts:
        if not isinstance(k, T):
            continue
        val = fdec(facts, k) if k.op in ('starts_with', 'app', 'eq') else None
        # strip_prefix(line, 'if')
        if k.op == 'discr' and k.a[0].op == 'app' and str(k.a[0].a[0]).endswith('strip_prefix') and strip_trim(k.a[0].a[1]) is line and k.a[0].a[2] is Str('if'):
            if v == ('=', 0):
                return 0
            rest = raw('fld', k.a[0], 'Some.0')
            if fdec(facts, Eq(raw('len', rest), Int(0))) == 1:
                return 1
            for q, w in facts:
                if isinstance(q, T) and q.op == 'app' and str(q.a[0]).endswith('starts_with') and q.a[1] is rest and 'is_whitespace' in pp(q.a[2]):
                    return 1 if w == ('=', 1) else 0
            res = 'prefix'
        if k.op == 'app' and str(k.a[0]).endswith('starts_with') and strip_trim(k.a[1]) is line and k.a[2] is Str('if'):
            if v == ('=', 0):
                return 0
            res = res or 'prefix'
    for k, v in facts:
        if isinstance(k, T) and k.op in ('elem', 'sub') and v[0] in ('=', '!', 'in') and any(y is line for y in walk(k)):
            vs = v[1] if v[0] != '=' else (v[1],)
            names = [x.a[0] if isinstance(x, T) else x for x in vs]
            if 'if' in names:
                return (1 if v[0] == '=' else 0) if v[0] != 'in' else res
    return res


def indented(facts, line):
    for k, v in facts:
        if isinstance(k, T) and any(y is line for y in walk(k)):
            if k.op == 'app' and str(k.a[0]).endswith('is_whitespace') and k.a[1].op == 'elem' and k.a[1].a[1] is Int(0) and k.a[1].a[0].op == 'chars' and trimmed(k.a[1].a[0].a[0]) in (None, 'trim_end'):
                return v[1] if v[0] == '=' else None
            if k.op == 'app' and str(k.a[0]).endswith('starts_with') and trimmed(k.a[1]) in (None, 'trim_end') and strip_trim(k.a[1]) is line and 'is_whitespace' in pp(k.a[2]):
                return v[1] if v[0] == '=' else None
    return None


def patterns_end(R, rule, where, lp, pats, sets, news, pb):
    """Once a block has had a rule, a line that is not indented no longer adds a pattern to it."""
    if not pats or not sets:
        return
    flags = None
    for f, u in pats:
        here = set()
        for k, v in f:
            if isinstance(k, T) and k.op == 'phi' and k is not pb and v[0] == '=' and v[1] in (0, 1):
                here.add((k, v[1]))
        flags = here if flags is None else flags & here
    if not flags:
        if all(not any(isinstance(k, T) and any(y.op == 'phi' and k is not discr(pb) for y in walk(k)) for k, v in f) for f, u in pats):
            R.bad(rule, where, 'after the rules of a block a line that is not indented still adds a pattern to it', fstr(pats[0][0]))
        else:
            R.unk(rule, where, 'end of the patterns not recognised')
        return
    for k, c in sorted(flags, key=str):
        key = k.a[1]

        def after(f, u):
            x = u.get(key, k)
            if x is k:
                z = [v for q, v in f if q is k]
                return z[0][1] if z and z[0][0] == '=' else None
            return x.a[0] if x.op == 'int' else None
        a = [after(f, u) for f, u in sets]
        n = [after(f, u) for f, u in news]
        if all(x == 1 - c for x in a) and all(x == c or x is None for x in n):
            bad = [f for (f, u), x in zip(news, n) if x is None and fdec(f, Eq(discr(pb), Int(0))) != 1]
            if not bad:
                R.ok(rule, where, 'after the rules of a block a line that is not indented ends it')
                return
            R.unk(rule, where, 'end of the patterns not recognised')
            return
    if len(flags) == 1:
        if any(x == c for x in a):
            R.bad(rule, where, 'after the rules of a block a line that is not indented still adds a pattern to it', fstr(sets[a.index(c)][0]))
            return
        if any(x == 1 - c for x in n):
            R.bad(rule, where, 'a block starts as if it already had rules: its further patterns are not read', fstr(news[n.index(1 - c)][0]))
            return
    R.unk(rule, where, 'end of the patterns not recognised')


def check(ana, R, rule):
    n = 'importer::Rules::add_from_str'
    s = ana.summ(n, inline=(n,), opaque=(AL,))
    ana.need_fields('importer::Subrules', 'patterns', 'rules')
    ana.need_fields('importer::Rules', 'subrules')
    sfs = ana.adt('importer::Subrules')['variants'][0]['fields']
    ip, ir = sfs.index('patterns'), sfs.index('rules')
    rfs = ana.adt('importer::Rules')['variants'][0]['fields']
    isub = rfs.index('subrules')
    arg = "('arg', 0)"
    lps = {}
    for st, v in s.outs:
        for e in st.ev:
            if e[0] == 'loop':
                lp = loop_of(e[1])
                if any(x[0][0] == AL for f, u, ev in lp.parts for x in events(ev)):
                    lps[e[1]] = lp
    if len(lps) != 1:
        raise Unknown('rules are not read by one loop over the lines')
    lt, lp = list(lps.items())[0]
    where = '%s:%s' % lp.where
    src, whole = src_of(lp.it)
    if src is None or src.op != 'lines':
        raise Unknown('rules are not read line by line')
    text = strip_trim(src.a[0])
    R.check(whole and text is Sym('P1'), rule, where, 'every line of the rules file is looked at') if whole is False and src.a[0] is Sym('P1') or text is Sym('P1') else R.unk(rule, where, 'lines of %s' % pp(text, 4))
    el = raw('elem', src, raw('k', lp.depth))
    line = raw('app', 'utils::remove_comments', el)
    keys = [k for k, i in lp.inits]
    root = [k for k in keys if dict(lp.inits)[k] is Sym('P0') or k == (arg,)]
    if len(root) != 1:
        raise Unknown('rules being read not recognised')
    root = root[0]
    proot = raw('phi', lp.depth, root)
    SR = 'silverfox::importer::Subrules'

    def sr(x):
        """('new', patterns, rules) for Some(Subrules(..)) / Subrules(..)"""
        if x.op == 'agg' and x.a[0] == OPT and x.a[1] == 1:
            x = x.a[2]
        if x.op == 'agg' and str(x.a[0]).endswith('Subrules'):
            return x.a[2 + ip], x.a[2 + ir]
        return None
    blk = [k for k in keys if k != root and any(sr(dict(u).get(k, NONE)) for f, u, ev in lp.parts)]
    if len(blk) != 1:
        raise Unknown('block being read not recognised')
    blk = blk[0]
    pb = raw('phi', lp.depth, blk)
    if dict(lp.inits)[blk] is not NONE:
        raise Unknown('block being read starts as %s' % pp(dict(lp.inits)[blk], 3))
    cur = raw('fld', pb, 'Some.0')
    crules, cpats = raw('fld', cur, 'rules'), raw('fld', cur, 'patterns')

    before = []

    def root_parts(x):
        """a root value as (calls of add_from_line, pushed blocks) on top of the one before, or None"""
        calls, pushed = [], []
        while x is not proot:
            if x.op == 'post' and x.a[0] == AL and x.a[1] == 0:
                calls.append(x.a[3])
                x = x.a[2]
            elif x.op == 'agg' and str(x.a[0]).endswith('importer::Rules'):
                y = x.a[2 + isub]
                others = [x.a[2 + i] for i in range(len(rfs)) if i != isub]
                bases = set(o.a[0] for o in others if o.op == 'fld')
                if len(bases) != 1 or any(o.op != 'fld' or o.a[1] != rfs[i] for i, o in zip([j for j in range(len(rfs)) if j != isub], others)):
                    return None
                b = bases.pop()
                while y.op == 'push':
                    pushed.append(y.a[1])
                    y = y.a[0]
                if y.op == 'concat' and len(y.a) == 2 and y.a[0].op == 'vec' and y.a[1] is raw('fld', b, 'subrules'):
                    before.append(y)
                    y = y.a[1]
                if y is not raw('fld', b, 'subrules'):
                    return None
                x = b
            else:
                return None
        return calls, pushed
    pats, sets, news = [], [], []
    for f, u, ev in lp.parts:
        fl = list(f)
        u = dict(u)
        opened = fdec(f, Eq(discr(pb), Int(1)))
        bl = blankness(fl, line)
        if bl == 'no':
            continue        # cannot happen
        x, b = u.get(root, proot), u.get(blk, pb)
        before.clear()
        rp = root_parts(x)
        if before:
            R.bad(rule, where, 'a block is put before those above it', fstr(f))
            continue
        if rp is None:
            R.unk(rule, where, 'the rules become %s' % pp(x, 4))
            continue
        calls, pushed = rp
        fs = fstr(f)
        bs = sr(b)
        same = b is pb or b.op == 'agg' and b.a[0] == OPT and b.a[1] == 1 and b.a[2] is cur
        blockcalls, newpats, newblock = [], [], None
        if bs:
            p, r = bs
            q = r
            while q.op == 'post' and q.a[0] == AL and q.a[1] == 0:
                blockcalls.append(q.a[3])
                q = q.a[2]
            pp_ = p
            while pp_.op == 'push':
                newpats.append(pp_.a[1])
                pp_ = pp_.a[0]
            if q is crules and pp_ is cpats:
                pass
            elif pp_.op == 'vec':
                newpats += list(pp_.a)
                newblock = q
            else:
                c = comp(pp_)
                if c is not None and c.src[0] is not None and c.src[0].op in ('words', 'splits') and any(y is line for y in walk(c.src[0])):
                    R.bad(rule, where, 'each piece of a line becomes a pattern of its own', fs)
                else:
                    R.unk(rule, where, 'block becomes %s' % pp(b, 4))
                continue
        elif not same and b is not NONE:
            R.unk(rule, where, 'block becomes %s' % pp(b, 4))
            continue
        uses = calls + blockcalls
        if any(strip_trim(y) is not line for y in uses):
            R.unk(rule, where, 'what is read is %s' % pp(uses[0], 4))
            continue
        if bl == 1:
            R.check(not uses and not newpats and newblock is None and same and not pushed, rule, where, 'a blank line changes nothing', fs)
            continue
        ind = indented(fl, line)
        isif = first_word_if(fl, line)
        odd = bl is None
        if newblock is not None:
            news.append((f, u))
        elif newpats:
            pats.append((f, u))
        elif blockcalls:
            sets.append((f, u))
        # a block that is left is kept
        ended = opened != 0 and (b is NONE or newblock is not None)
        if ended or pushed:
            if pushed == [cur] and ended:
                R.ok(rule, where, 'a block that ends is kept')
            elif pushed and pushed != [cur]:
                R.bad(rule, where, 'a block is kept as %s' % pp(pushed[0], 4), fs) if len(pushed) > 1 and all(y is cur for y in pushed) else R.unk(rule, where, 'kept %s' % pp(pushed[0], 4))
            elif ended:
                R.bad(rule, where, 'a block of conditional rules is forgotten when the next line starts something else', fs)
            else:
                R.bad(rule, where, 'a block of conditional rules is kept before it has ended', fs)
        if newblock is not None:
            rest = [y for y in newpats]
            if newblock is x or newblock is proot and x is proot:
                R.ok(rule, where, 'a block starts out with the general rules read so far')
            elif newblock is proot:
                R.ok(rule, where, 'a block starts out with the general rules read so far')
            elif newblock.op == 'agg':
                bad, unk = [], []
                for i, f_ in enumerate(rfs):
                    y = newblock.a[2 + i]
                    if y is raw('fld', proot, f_) or x.op == 'agg' and y is x.a[2 + i] or f_ == 'subrules' and y.op == 'vec' and not y.a:
                        continue
                    (bad if y.op in ('str', 'int', 'vec', 'emptymap') or y.op == 'fld' and y.a[0] is proot else unk).append(f_)
                if bad:
                    R.bad(rule, where, 'a block does not start out with the general rules read so far: %s' % ', '.join(bad), fs)
                elif unk:
                    R.unk(rule, where, 'block starts out with %s' % pp(newblock, 4))
                else:
                    R.ok(rule, where, 'a block starts out with the general rules read so far')
            else:
                R.unk(rule, where, 'block starts out with %s' % pp(newblock, 4))
            if isif == 0:
                R.bad(rule, where, 'a line not starting with `if` starts a block', fs)
            elif isif == 'prefix':
                R.bad(rule, where, 'a line whose first word only begins with `if` starts a block', fs)
            elif isif is None:
                R.unk(rule, where, 'condition for a block not recognised')
            R.check(not uses, rule, where, 'the line that starts a block is not also a rule', fs)
            if len(newpats) > 1:
                R.unk(rule, where, '%d patterns from one line' % len(newpats))
            elif newpats:
                okp = any(y is line for y in walk(newpats[0]))
                t = strip_trim(newpats[0])
                if t is line:
                    R.bad(rule, where, 'the pattern of a block is the whole line, `if` included', fs)
                elif t.op == 'elem' and t.a[0].op == 'words' and num(t.a[1]) is not None or t.op == 'app' and str(t.a[0]).endswith('join') and t.a[1].op == 'from' and t.a[1].a[0].op == 'words':
                    R.bad(rule, where, 'the pattern of a block is not the rest of the line but %s' % pp(t, 4), fs)
                elif any(y.op == 'app' and str(y.a[0]).split('::')[-1] in ('rfind', 'rsplit_once') and strip_trim(y.a[1]) is line for y in walk(t)):
                    R.bad(rule, where, 'the pattern of a block is only the last word of the line: %s' % pp(t, 4), fs)
                else:
                    (R.ok if okp else R.unk)(rule, where, 'the first pattern is the rest of the line')
            continue
        n_uses = len(uses) + len(newpats)
        if n_uses == 0:
            if bl == 0 and not any(isinstance(k, T) and k.op == 'app' and any(y is line for y in walk(k)) and str(k.a[0]).split('::')[-1] not in ('is_whitespace', 'starts_with', 'strip_prefix', 'find', 'add_from_line') for k, _ in fl):
                R.bad(rule, where, 'a line of the rules file is passed over', fs)
            else:
                R.unk(rule, where, 'a line has no effect: %s' % fs)
            continue
        if n_uses > 1:
            R.bad(rule, where, 'a line of the rules file is used %d times' % n_uses, fs)
            continue
        if newpats:
            if ind == 1:
                R.bad(rule, where, 'an indented line of a block is taken for a pattern', fs)
            elif strip_trim(newpats[0]) is not line:
                R.unk(rule, where, 'pattern %s' % pp(newpats[0], 4))
            elif ind == 0:
                R.ok(rule, where, 'a line that is not indented adds a pattern to the block')
            else:
                R.unk(rule, where, 'indentation not recognised')
        elif blockcalls:
            if ind == 1:
                R.ok(rule, where, 'an indented line sets a rule of its block')
            elif ind == 0:
                R.bad(rule, where, 'a line that is not indented sets a rule of the block before it', fs)
            else:
                R.unk(rule, where, 'indentation not recognised')
        else:
            if opened == 0:
                R.ok(rule, where, 'a line outside a block sets a general rule')
            elif ind == 1:
                R.bad(rule, where, 'an indented line of a block sets a general rule', fs)
            elif ind == 0 and b is NONE:
                R.ok(rule, where, 'a line after a block sets a general rule')
            elif ind == 0:
                R.bad(rule, where, 'a line after a block sets a general rule while the block goes on', fs)
            else:
                R.unk(rule, where, 'indentation not recognised')
            if isif == 1:
                R.bad(rule, where, 'a line starting with `if` does not start a block', fs)
    patterns_end(R, rule, where, lp, pats, sets, news, pb)
    # the last block
    lb, lr = raw('loopval', lt, blk), raw('loopval', lt, root)
    for st, v in s.outs:
        if not is_ok(v):
            continue
        if E.decide(st, raw('found', lt)) == 1:
            R.bad(rule, s.where, 'reading ends before the end of the rules file', facts_str(st))
            continue
        opened = E.decide(st, Eq(discr(lb), Int(1)))
        m = ana.mem(st, 0)
        if m is None:
            continue
        kept = []
        y = m.a[2 + isub] if m.op == 'agg' else None
        while y is not None and y.op == 'push':
            kept.append(y.a[1])
            y = y.a[0]
        if y is not None and y.op == 'concat' and len(y.a) == 2 and y.a[0].op == 'vec' and y.a[0].a and y.a[1] is raw('fld', lr, 'subrules'):
            R.bad(rule, s.where, 'the last block is put before those above it', facts_str(st))
            continue
        if opened == 0:
            R.check(m is lr or not kept, rule, s.where, 'no block is open at the end: nothing is added', facts_str(st))
        elif m is lr:
            R.bad(rule, s.where, 'the last block of the rules file is forgotten', facts_str(st))
        elif kept == [raw('fld', lb, 'Some.0')]:
            R.ok(rule, s.where, 'the last block is kept')
        else:
            R.unk(rule, s.where, 'rules at the end: %s' % pp(m, 4))
