"""Comments are inert.

remove_comments cuts a line at the first `//` or `;`, whichever comes first, in
every case; the journal reader and the rules reader use a line only behind it;
and what is left of a line always goes somewhere: into the chunk it belongs to,
the chunk to its parser, a line of the chunk to the posting, envelope or setting
it defines. Only a line known to be blank may be passed over."""
from ..base import *
from ..acc import base_it
from ..rulefile import strip_trim, trimmed, blankness, indented
from .c20 import appn

RC = 'utils::remove_comments'
PC = 'ledger::Ledger::parse_chunk'
WANT = {'//', ';'}


def pat(t):
    if isinstance(t, str):
        return t
    if not isinstance(t, T):
        return chr(t) if isinstance(t, int) else None
    if t.op == 'str':
        return t.a[0]
    if t.op == 'int' and t.a[0] >= 32:
        return chr(t.a[0])
    return None


def may_be_text(f, *ts):
    """The facts about a text are all understood and none of them makes it blank."""
    st = fstate(f)
    lens = set()
    for k, v in f:
        if not isinstance(k, T) or k.op == 'more' or not any(y in ts for y in walk(k)):
            continue
        if k.op == 'app' and appn(k, 'starts_with', 'ends_with', 'contains', 'is_whitespace', 'eq_ignore_ascii_case'):
            continue
        if k.op == 'discr' and k.a[0].op == 'app' and appn(k.a[0], 'find', 'rfind', 'strip_prefix'):
            continue
        if k.op == 'discr' and v == ('=', 0) and k.a[0].op == 'app':
            continue        # something read from it, without error
        if k.op == 'elem' and k.a[0].op in ('words', 'chars'):
            continue
        ls = [y for y in walk(k) if y.op == 'len' and any(z in ts for z in walk(y))]
        if k.op in ('lt', 'eq', 'len') and len(set(ls)) == 1 and (k.op == 'len' or any(num(x) is not None for x in k.a)):
            x = ls[0].a[0]
            while x not in ts and (trimmed(x) or x.op in ('lines', 'words', 'chars')):
                x = x.a[1] if trimmed(x) else x.a[0]
            if x in ts:
                lens.add(ls[0])
                continue
        return False
    for l in lens:
        for n in range(1, 12):
            s2 = st.copy()
            if E.assume(s2, Eq(l, Int(n)), 1) is not False and not contradiction(s2, l, n):
                break
        else:
            return False
    return True


def contradiction(st, l, n):
    for k, v in st.facts.items():
        if isinstance(k, T) and k.op == 'lt' and l in k.a and any(num(x) is not None for x in k.a) and v[0] == '=':
            a, b = [n if x is l else num(x) for x in k.a]
            if (a < b) != bool(v[1]):
                return True
        if k is l and (v[0] == '=' and v[1] != n or v[0] == '!' and n in v[1]):
            return True
    return False


def build(ana, R):
    p0, p1 = Sym('P0'), Sym('P1')

    # ------------------------------------------------------------ the cut itself
    def find_of(t):
        """the pattern whose first position in the line t is: find(P0, p)"""
        if t.op == 'app' and appn(t, 'find') and t.a[1] is p0 and len(t.a) == 3:
            return pat(t.a[2])
        return None

    def pos_of(t):
        if t.op == 'fld' and t.a[1] == 'Some.0':
            return find_of(t.a[0])
        return None

    def cuts(t):
        """patterns at the first of which the line is cut; None if not understood; 'bad' text if certainly something else"""
        if t is p0:
            return set()
        if trimmed(t) == 'trim_end':
            return cuts(t.a[1])
        if t.op == 'sub' and t.a[0] is p0 and (t.a[1].op in ('agg', 'tuple') or num(t.a[1]) == 0):
            e = t.a[2]
            if e.op == 'min':
                r = set()
                for x in e.a:
                    if x is raw('len', p0):
                        continue
                    p = pos_of(x)
                    if p is None:
                        return None
                    r.add(p)
                return r
            p = pos_of(e)
            if p is not None:
                return {p}
            if e.op == 'fld' and e.a[0].op == 'app' and appn(e.a[0], 'rfind') and e.a[0].a[1] is p0:
                return 'the line is cut at the last `%s`' % pat(e.a[0].a[2])
            if e.op == 'lin' and any(pos_of(x) for x in walk(e)) and all(x.op in ('lin', 'fld', 'int', 'num') or x.op == 'app' or x is p0 or x.op in ('str', 'sym') for x in walk(e)):
                return 'the line is cut at %s' % pp(e, 4)
            return None
        if t.op == 'elem' and t.a[1] is Int(0) and t.a[0].op == 'splits':
            c = cuts(t.a[0].a[0])
            p = pat(t.a[0].a[2]) if t.a[0].a[1] == 'split' and len(t.a[0].a) == 3 and isinstance(t.a[0].a[2], T) else None
            if isinstance(c, set) and p is not None:
                return c | {p}
            return None
        if t.op == 'str' and t.a[0] == '':
            return None
        return None

    def cut():
        s = ana.summ(RC, inline=(RC,))
        for st, v in s.outs:
            c = cuts(v)
            if c is None:
                R.unk('cut', s.where, 'a line becomes %s' % pp(v, 4))
                continue
            if isinstance(c, str):
                R.bad('cut', s.where, c, facts_str(st))
                continue
            fs = facts_str(st)
            # patterns the partition is about
            finds = {}
            if any(isinstance(k, T) and k.op == 'len' and k.a[0].op == 'splits' and z == ('=', 0) for k, z in st.facts.items()):
                continue        # there is always a first part
            for k in st.facts:
                if isinstance(k, T):
                    for x in walk(k):
                        p = find_of(x) if x.op == 'app' else None
                        if p is not None:
                            finds[p] = x
            absent = set(p for p, x in finds.items() if E.decide(st, Eq(discr(x), Int(0))) == 1)
            have = set(c)
            for p in WANT | set(finds):
                if p in have:
                    continue
                for q in c:
                    if p in finds and q in finds:
                        a, b = payload(finds[q]), payload(finds[p])
                        if E.decide(st, Lt(a, b)) == 1 or E.decide(st, Lt(b, a)) == 0:
                            have.add(p)
            extra = c - WANT - absent
            missing = WANT - have - absent
            other = [k for k in st.facts if isinstance(k, T) and not any(find_of(x) for x in walk(k) if x.op == 'app') and any(x is p0 for x in walk(k))]
            if extra:
                R.bad('cut', s.where, 'the line is also cut at `%s`' % '`, `'.join(sorted(extra)), fs)
            elif not missing:
                R.ok('cut', s.where, 'the line is cut at the first `//` or `;`')
            elif other:
                R.unk('cut', s.where, 'case not recognised: %s' % pp(other[0], 4))
            else:
                R.bad('cut', s.where, 'the line is not cut at a first `%s`' % '`, `'.join(sorted(missing)), fs)

    # ------------------------------------------------------------ lines of the journal
    def raw_use(t, el):
        """the line is used other than behind remove_comments"""
        if t is el:
            return True
        if t.op == 'app' and t.a[0] == RC and len(t.a) == 2 and t.a[1] is el:
            return False
        return any(raw_use(x, el) for x in t.a if isinstance(x, T)) if any(y is el for y in walk(t)) else False

    def skippable(f, el, line):
        """is this line known to be blank once the comment is removed? True / False / None"""
        b = blankness(f, line)
        if b in (0, 1, 'no'):
            return {0: False, 1: True, 'no': 'no'}[b]
        if blankness(f, el) == 1:
            return True
        for k, v in f:
            if isinstance(k, T) and k.op == 'app' and appn(k, 'starts_with') and v == ('=', 1) and strip_trim(k.a[1]) is el and trimmed(k.a[1]) in ('trim', 'trim_start', None) and (pat(k.a[2]) or '')[:1] == ';':
                return True
            if isinstance(k, T) and k.op == 'app' and appn(k, 'starts_with') and v == ('=', 1) and strip_trim(k.a[1]) is el and (pat(k.a[2]) or '')[:2] == '//':
                return True
        return False if may_be_text(f, el, line) else None

    def narrow(f, line):
        """the first character is only known not to be a few constant ones, a space or a tab not among them"""
        cs = []
        for k, v in f:
            if isinstance(k, T) and k.op == 'elem' and k.a[1] is Int(0) and k.a[0].op == 'chars' and strip_trim(k.a[0].a[0]) is line and trimmed(k.a[0].a[0]) in (None, 'trim_end'):
                if v[0] != '!':
                    return None
                cs += [pat(x) for x in v[1]]
            elif isinstance(k, T) and k.op == 'app' and any(y is line for y in walk(k)) and appn(k, 'starts_with') and strip_trim(k.a[1]) is line and v == ('=', 0) and pat(k.a[2]):
                cs.append(pat(k.a[2]))
            elif isinstance(k, T) and k.op not in ('more', 'len', 'lt') and any(y is line for y in walk(k)):
                return None
        if not cs or ' ' in cs and '\t' in cs:
            return None
        return ', '.join('%r' % c for c in cs)

    def journal():
        ana.fn(RC)
        ana.fn(PC)
        n = 'ledger::Ledger::add_from_str'
        s = ana.summ(n, inline=(n,), opaque=(RC, PC))
        loops = [(lt, lp) for lt, lp in s.loops.items()] if hasattr(s, 'loops') else None
        lts = set()
        for st, v in s.outs:
            for k in list(st.facts) + [e[1] for e in st.ev if e[0] == 'loop']:
                if isinstance(k, T):
                    for x in walk(k):
                        if x.op == 'loop':
                            lts.add(x)
        cand = []
        for lt in lts:
            lp = loop_of(lt)
            lst, start, exact = base_it(lp.it)
            if lst is not None and lst.op == 'lines':
                cand.append((lt, lp, lst, start, exact))
        if len(cand) != 1:
            raise Unknown('lines of the journal not recognised')
        lt, lp, lst, start, exact = cand[0]
        where = '%s:%s' % lp.where
        if strip_trim(lst.a[0]) is not p1:
            raise Unknown('lines of %s' % pp(lst.a[0], 3))
        if start != 0 or not exact:
            R.bad('lines', where, 'not every line of the journal is looked at')
            return
        if trimmed(lst.a[0]) in ('trim', 'trim_start'):
            R.unk('lines', where, 'text trimmed before it is cut into lines')
        el = raw('elem', lst, raw('k', lp.depth))
        line = raw('app', RC, el)
        keys = [k for k, i in lp.inits if i is Str('') or i.op == 'str']
        if len(keys) != 1:
            raise Unknown('chunk not recognised')
        ck = keys[0]
        phi = raw('phi', lp.depth, ck)
        for f, u, ev in lp.parts:
            y = dict(u).get(ck, phi)
            fs = fstr(f)
            calls = [e for e, il, _ in events(ev) if e[0] == PC]
            used = [y] + [e[2] for e in calls]
            if any(raw_use(x, el) for x in used):
                R.bad('lines', where, 'a line is used with its comment', fs)
                continue
            sk = skippable(f, el, line)
            if sk == 'no':
                continue
            if y is phi:
                if calls:
                    R.unk('lines', where, 'chunk read and kept')
                elif sk:
                    R.ok('lines', where, 'a blank line changes nothing')
                elif sk is False:
                    R.bad('lines', where, 'a line that is not blank is passed over', fs)
                else:
                    R.unk('lines', where, 'a line is passed over in a case: %s' % fs)
                continue
            ind = indented(f, line)
            if strip_trim(y) is line and trimmed(y) in (None, 'trim_end'):
                if sk is True:
                    R.unk('lines', where, 'a blank line starts a chunk')
                elif not (len(calls) == 1 and calls[0][2] is phi):
                    empty = fdec(f, Eq(raw('len', phi), Int(0)))
                    blank = blankness(f, phi)
                    if not calls and (empty == 1 or blank == 1):
                        R.ok('lines', where, 'an empty chunk needs no reading')
                    elif not calls and may_be_text(f, phi):
                        R.bad('lines', where, 'a chunk is dropped when the next one starts', fs)
                    else:
                        R.unk('lines', where, 'chunk at the next one: %s' % fs)
                elif ind is None and narrow(f, line):
                    R.bad('lines', where, 'a line indented by white space other than %s starts a chunk of its own' % narrow(f, line), fs)
                elif ind == 0:
                    R.ok('lines', where, 'a line that is not indented starts a chunk, after the one before has been read')
                elif ind == 1:
                    R.bad('lines', where, 'an indented line starts a chunk of its own', fs)
                else:
                    R.unk('lines', where, 'indentation not recognised')
            elif y.op == 'cat' and y.a[0] is phi:
                rest = list(y.a[1:])
                tl = [x for x in rest if strip_trim(x) is line]
                sep = [x for x in rest if x.op == 'str']
                if len(tl) == 1 and len(tl) + len(sep) == len(rest):
                    i = rest.index(tl[0])
                    before = ''.join(x.a[0] for x in rest[:i])
                    after = ''.join(x.a[0] for x in rest[i + 1:])
                    if '\n' not in before + after:
                        R.bad('lines', where, 'a line is joined to the one before it', fs)
                    elif (before + after).strip():
                        R.bad('lines', where, 'text is added to a line: %r' % (before + after), fs)
                    elif ind == 1:
                        R.ok('lines', where, 'an indented line belongs to the chunk before it')
                    elif ind == 0:
                        R.bad('lines', where, 'a line that is not indented is added to the chunk before it', fs)
                    else:
                        R.unk('lines', where, 'indentation not recognised')
                elif not tl:
                    R.bad('lines', where, 'the text of a line is left out', fs) if sep == rest and sk is False else R.unk('lines', where, 'chunk becomes %s' % pp(y, 4))
                else:
                    R.unk('lines', where, 'chunk becomes %s' % pp(y, 4))
            elif y is Str(''):
                if sk is True and len(calls) == 1 and calls[0][2] is phi and may_be_text(f, phi):
                    R.bad('lines', where, 'a blank line or a line with only a comment ends the chunk; what is written below it is read apart', fs)
                elif not calls and may_be_text(f, phi):
                    R.bad('lines', where, 'a chunk is dropped', fs)
                else:
                    R.unk('lines', where, 'chunk emptied: %s' % fs)
            else:
                R.unk('lines', where, 'chunk becomes %s' % pp(y, 4))
        last = raw('loopval', lt, ck)
        for st, v in s.outs:
            if E.decide(st, raw('found', lt)) == 1 or not is_ok(v):
                continue
            ev = [e for e, il, _ in events(st.ev) if e[0] == PC and not il and e[2] is last]
            if ev:
                R.ok('lines', s.where, 'the last chunk is read')
            elif E.decide(st, Eq(raw('len', last), Int(0))) == 1 or blankness(list(st.facts.items()), last) == 1:
                R.ok('lines', s.where, 'no last chunk')
            elif may_be_text(list(st.facts.items()), last) and not any(e[0] == PC and not il for e, il, _ in events(st.ev)):
                R.bad('lines', s.where, 'the last chunk is not read', facts_str(st))
            else:
                R.unk('lines', s.where, 'last chunk: %s' % facts_str(st))

    # ------------------------------------------------------------ lines of the rules file
    def rules():
        ana.fn(RC)
        n = 'importer::Rules::add_from_str'
        AL = 'importer::Rules::add_from_line'
        ana.fn(AL)
        s = ana.summ(n, inline=(n,), opaque=(RC, AL))
        lts = set()
        for st, v in s.outs:
            for k in list(st.facts) + [e[1] for e in st.ev if e[0] == 'loop']:
                if isinstance(k, T):
                    for x in walk(k):
                        if x.op == 'loop':
                            lts.add(x)
        cand = [(lt, loop_of(lt)) for lt in lts]
        cand = [(lt, lp) for lt, lp in cand if base_it(lp.it)[0] is not None and base_it(lp.it)[0].op == 'lines']
        if len(cand) != 1:
            raise Unknown('lines of the rules file not recognised')
        lt, lp = cand[0]
        where = '%s:%s' % lp.where
        lst, start, exact = base_it(lp.it)
        if strip_trim(lst.a[0]) is not p1:
            raise Unknown('lines of %s' % pp(lst.a[0], 3))
        if start != 0 or not exact:
            R.bad('rule-lines', where, 'not every line of the rules file is looked at')
            return
        el = raw('elem', lst, raw('k', lp.depth))
        line = raw('app', RC, el)
        for f, u, ev in lp.parts:
            fs = fstr(f)
            calls = [e for e, il, _ in events(ev) if e[0] == AL]
            used = [x for k, x in u] + [e[2] for e in calls]
            if any(raw_use(x, el) for x in used):
                R.bad('rule-lines', where, 'a line is used with its comment', fs)
                continue
            sk = skippable(f, el, line)
            if sk == 'no':
                continue
            touched = any(any(y is line for y in walk(x)) for x in used)
            same = all(x is raw('phi', lp.depth, k) for k, x in u)
            if sk is True:
                (R.ok if same else R.unk)('rule-lines', where, 'a blank line changes nothing')
            elif touched or not same:
                R.ok('rule-lines', where, 'a line is used without its comment')
            elif sk is False:
                R.bad('rule-lines', where, 'a line that is not blank is passed over', fs)
            else:
                R.unk('rule-lines', where, 'a line is passed over in a case: %s' % fs)

    # ------------------------------------------------------------ lines of a chunk
    def entry():
        n, PP = 'entry::Entry::parse', 'posting::Posting::parse'
        ana.fn(PP)
        s = ana.summ(n, inline=(n,), opaque=(PP, 'entry::Entry::validate', 'entry::Entry::parse_header'))
        lts = set(e[1] for st, v in s.outs for e in st.ev if e[0] == 'loop')
        cand = [(lt, loop_of(lt)) for lt in lts]
        cand = [(lt, lp) for lt, lp in cand if any(e[0] == PP for f, u, ev in lp.parts for e, il, _ in events(ev)) or base_it(lp.it)[0] is not None and base_it(lp.it)[0].op in ('lines', 'from')]
        cand = [(lt, lp) for lt, lp in cand if base_it(lp.it)[0] is not None]
        if len(cand) != 1:
            raise Unknown('posting lines not recognised')
        lt, lp = cand[0]
        where = '%s:%s' % lp.where
        lst, start, exact = base_it(lp.it)
        base, off = lst, 0 if start == 0 else start
        if base.op == 'from' and off == 0:
            off, base = base.a[1], base.a[0]
        if base.op != 'lines' or strip_trim(base.a[0]) is not p0 or trimmed(base.a[0]) not in ('trim', 'trim_start', None):
            raise Unknown('posting lines of %s' % pp(base, 3))
        offn = off if not isinstance(off, T) else num(off)
        if not exact or offn is not None and offn > 1:
            R.bad('posting-lines', where, 'not every line of an entry is looked at: %s' % pp(lp.it, 4))
            return
        if offn != 1:
            raise Unknown('posting lines from %s' % off)
        src = lst if start == 0 else raw('from', lst, start)
        el = E.elem_of(src, raw('k', lp.depth))
        line = raw('app', RC, el)
        for f, u, ev in lp.parts:
            calls = [e for e, il, _ in events(ev) if e[0] == PP]
            fs = fstr(f)
            if len(calls) == 1 and strip_trim(calls[0][1]) in (el, line):
                R.ok('posting-lines', where, 'a line of an entry is read as a posting')
            elif len(calls) > 1:
                R.unk('posting-lines', where, 'a line read %d times' % len(calls))
            elif not calls:
                b = blankness(f, el)
                sk = skippable(f, el, line) if b not in (0, 1, 'no') else {1: True, 0: False, 'no': 'no'}[b]
                if sk == 'no':
                    continue
                if sk is True:
                    R.ok('posting-lines', where, 'only blank lines are passed over')
                elif sk is False:
                    R.bad('posting-lines', where, 'a line of an entry that is not blank is passed over', fs)
                else:
                    R.unk('posting-lines', where, 'a line is passed over in a case: %s' % fs)
            else:
                R.unk('posting-lines', where, 'posting read from %s' % pp(calls[0][1], 4))

    def account():
        n, EP, AE = 'account::Account::parse', 'envelope::Envelope::parse', 'account::Account::add_envelope'
        ana.fn(EP)
        ana.fn(AE)
        s = ana.summ(n, inline=(n,), opaque=(EP, AE, 'account::Account::parse_header', RC))
        lts = set(e[1] for st, v in s.outs for e in st.ev if e[0] == 'loop')
        cand = [(lt, loop_of(lt)) for lt in lts]
        cand = [(lt, lp) for lt, lp in cand if base_it(lp.it)[0] is not None and base_it(lp.it)[0].op in ('lines', 'from')]
        if len(cand) != 1:
            raise Unknown('envelope lines not recognised')
        lt, lp = cand[0]
        where = '%s:%s' % lp.where
        lst, start, exact = base_it(lp.it)
        base, off = lst, start
        if base.op == 'from' and off == 0:
            off, base = base.a[1], base.a[0]
        if base.op != 'lines' or strip_trim(base.a[0]) is not p0:
            raise Unknown('envelope lines of %s' % pp(base, 3))
        offn = off if not isinstance(off, T) else num(off)
        if not exact or offn is not None and offn > 1:
            R.bad('envelope-lines', where, 'not every line of an account is looked at: %s' % pp(lp.it, 4))
            return
        src = lst if start == 0 else raw('from', lst, start)
        el = E.elem_of(src, raw('k', lp.depth))
        keys = [k for k, i in lp.inits if i.op == 'str']
        if len(keys) != 1:
            raise Unknown('envelope chunk not recognised')
        ck = keys[0]
        phi = raw('phi', lp.depth, ck)
        line = raw('app', RC, el)

        def isline(x):
            return strip_trim(x) in (el, line)

        def head(f):
            """does the line start an envelope? 1/0/None"""
            seen = {}
            for k, v in f:
                if isinstance(k, T) and k.op == 'app' and appn(k, 'starts_with') and isline(k.a[1]) and trimmed(k.a[1]) in ('trim', 'trim_start') and k.a[2].op == 'str' and v[0] == '=':
                    seen[k.a[2].a[0].strip()] = v[1]
                if isinstance(k, T) and k.op == 'elem' and k.a[1] is Int(0) and k.a[0].op == 'words' and isline(k.a[0].a[0]):
                    if v[0] == '=':
                        w = v[1].a[0] if isinstance(v[1], T) else v[1]
                        seen[w] = 1
                        if w not in ('expense', 'goal'):
                            return 0
                    elif v[0] == '!':
                        for w in v[1]:
                            seen[w.a[0] if isinstance(w, T) else w] = 0
            if any(seen.get(w) == 1 for w in ('expense', 'goal')):
                return 1
            for k, v in f:
                if isinstance(k, T) and k.op == 'app' and appn(k, 'starts_with') and isline(k.a[1]) and trimmed(k.a[1]) in (None, 'trim_end') and k.a[2].op == 'str' and v == ('=', 0) and k.a[2].a[0] in ('expense', 'goal') and k.a[2].a[0] not in seen and all(not isinstance(q, T) or q.op == 'more' or not any(y is el for y in walk(q)) or appn(q, 'starts_with') for q, _ in f):
                    return 'untrimmed'
            if all(seen.get(w) == 0 for w in ('expense', 'goal')):
                return 0
            return None
        def about(f):
            """the facts about the line, if all are about its text: [(kind, trimmed?, literal, value)] or None"""
            out = []
            for k, v in f:
                if not isinstance(k, T) or k.op == 'more' or not any(y is el for y in walk(k)):
                    continue
                if appn(k, 'starts_with', 'contains') and isline(k.a[1]) and k.a[2].op in ('str', 'int') and v in (('=', 0), ('=', 1)):
                    lit = k.a[2].a[0] if k.a[2].op == 'str' else chr(int(num(k.a[2])))
                    out.append((k.a[0].split('::')[-1], trimmed(k.a[1]) in ('trim', 'trim_start'), lit, v[1]))
                elif k.op == 'len' and isline(k.a[0]) and trimmed(k.a[0]) == 'trim' and v[0] == '=' and v[1] == 0:
                    return None
                elif k.op == 'len' and isline(k.a[0]):
                    continue
                else:
                    return None
            return out

        def may_start(f):
            """a line that starts an envelope is possible here"""
            a = about(f)
            if not a:
                return False
            for w in ('expense', 'goal'):
                if not any(kind == 'contains' and lit in w and not v or kind == 'starts_with' and tr and (w.startswith(lit) and not v or v and not w.startswith(lit) and not lit.startswith(w)) for kind, tr, lit, v in a):
                    return True
            return False

        def may_not(f):
            """a line that does not start an envelope is possible here"""
            a = about(f)
            return bool(a) and not any(kind == 'starts_with' and v and lit.strip() for kind, tr, lit, v in a) and any(kind == 'contains' and v for kind, tr, lit, v in a)
        for f, u, ev in lp.parts:
            y = dict(u).get(ck, phi)
            fs = fstr(f)
            eps = [e for e, il, _ in events(ev) if e[0] == EP]
            h = head(f)
            if isline(y):
                blank = blankness(f, phi) == 1 or fdec(f, Eq(raw('len', phi), Int(0))) == 1
                if len(eps) == 1 and eps[0][1] is phi:
                    aes = [e for e, il, _ in events(ev) if e[0] == AE]
                    R.check(len(aes) == 1, 'envelope-lines', where, 'the envelope read is added to its account', fs)
                elif not eps and blank:
                    R.ok('envelope-lines', where, 'no envelope before the first')
                elif not eps and may_be_text(f, phi):
                    R.bad('envelope-lines', where, 'an envelope is dropped when the next one starts', fs)
                else:
                    R.unk('envelope-lines', where, 'envelope at the next one: %s' % fs)
                if h == 0:
                    R.bad('envelope-lines', where, 'a line that does not start an envelope is taken to start one', fs)
                elif h is None and may_not(f):
                    R.bad('envelope-lines', where, 'a line that does not start an envelope is taken to start one', fs)
                elif h is None:
                    R.unk('envelope-lines', where, 'start of an envelope not recognised')
            elif y.op == 'cat' and y.a[0] is phi and not all(x.op == 'str' and not x.a[0].strip() for x in y.a[1:]):
                rest = list(y.a[1:])
                tl = [x for x in rest if isline(x)]
                sep = ''.join(x.a[0] for x in rest if x.op == 'str')
                if len(tl) == 1 and all(x is tl[0] or x.op == 'str' for x in rest):
                    if '\n' not in sep:
                        R.bad('envelope-lines', where, 'a line is joined to the one before it', fs)
                    elif h in (1, 'untrimmed') or h is None and may_start(f):
                        R.bad('envelope-lines', where, 'a line that starts an envelope is added to the one before', fs)
                    else:
                        (R.ok if h == 0 and not sep.strip() else R.unk)('envelope-lines', where, 'a line belongs to the envelope before it')
                else:
                    R.unk('envelope-lines', where, 'envelope chunk becomes %s' % pp(y, 4))
            elif y is phi or y.op == 'cat' and y.a[0] is phi:
                b = blankness(f, el)
                sk = skippable(f, el, line) if b not in (0, 1, 'no') else {1: True, 0: False, 'no': 'no'}[b]
                if sk == 'no':
                    continue
                if sk is True:
                    R.ok('envelope-lines', where, 'only blank lines are passed over')
                elif sk is False:
                    R.bad('envelope-lines', where, 'a line of an account is passed over', fs)
                else:
                    R.unk('envelope-lines', where, 'a line is passed over in a case: %s' % fs)
            else:
                R.unk('envelope-lines', where, 'envelope chunk becomes %s' % pp(y, 4))
        last = raw('loopval', lt, ck)
        for st, v in s.outs:
            if E.decide(st, raw('found', lt)) == 1 or not is_ok(v):
                continue
            ev = [e for e, il, _ in events(st.ev) if e[0] == EP and not il and e[1] is last]
            if ev:
                R.ok('envelope-lines', s.where, 'the last envelope is read')
            elif blankness(list(st.facts.items()), last) == 1 or E.decide(st, Eq(raw('len', last), Int(0))) == 1:
                R.ok('envelope-lines', s.where, 'no last envelope')
            elif may_be_text(list(st.facts.items()), last) and not any(e[0] == EP and not il for e, il, _ in events(st.ev)):
                R.bad('envelope-lines', s.where, 'the last envelope is not read', facts_str(st))
            else:
                R.unk('envelope-lines', s.where, 'last envelope: %s' % facts_str(st))

    def body():
        n, AB, FH = 'envelope::Envelope::parse', 'envelope::Envelope::add_body', 'envelope::Envelope::from_header'
        ana.fn(AB)
        ana.fn(FH)
        s = ana.summ(n, inline=(n,), opaque=(AB, FH, RC))
        for st, v in s.outs:
            if not is_ok(v):
                continue
            ev = [e for e, il, _ in events(st.ev) if e[0] == AB and not il]
            if len(ev) != 1:
                if not ev and not any(e[0] == AB for e, il, _ in events(st.ev)):
                    R.unk('envelope-lines', s.where, 'body not read in a case: %s' % facts_str(st))
                continue
            t = ev[0][2]
            if t.op == 'app' and appn(t, 'join'):
                t = raw('join', t.a[1], t.a[2])
            if t.op == 'join' and t.a[0].op == 'from' and t.a[0].a[0].op == 'lines' and strip_trim(t.a[0].a[0].a[0]) is p0:
                k = t.a[0].a[1]
                k = k if not isinstance(k, T) else num(k)
                if k is not None and k > 1:
                    R.bad('envelope-lines', evline(ev[0]), 'not every line of an envelope is read', facts_str(st))
                elif t.a[1].op == 'str' and '\n' not in t.a[1].a[0]:
                    R.bad('envelope-lines', evline(ev[0]), 'the lines of an envelope are read as one', facts_str(st))
                else:
                    (R.ok if k == 1 else R.unk)('envelope-lines', evline(ev[0]), 'the lines behind the header are the body')
            else:
                c = comp(t.a[0]) if t.op == 'join' else None
                bad = False
                if c is not None and c.src[0] is not None:
                    l, start, exact = base_it(c.lp.it)
                    if l is not None and l.op in ('lines', 'from'):
                        src = l if start == 0 else raw('from', l, start)
                        el = E.elem_of(src, raw('k', c.lp.depth))
                        for f, add_ in c.rows:
                            if not add_ and blankness(f, el) is None and may_be_text(f, el, raw('app', RC, el)):
                                bad = True
                                R.bad('envelope-lines', '%s:%s' % c.lp.where, 'a line of an envelope is passed over', fstr(f))
                if not bad:
                    R.unk('envelope-lines', evline(ev[0]), 'body %s' % pp(t, 4))

    return {'cut': cut, 'lines': journal, 'rule-lines': rules, 'posting-lines': entry, 'account-lines': account, 'envelope-lines': body}


def run(ana, R):
    b = build(ana, R)
    for k in b:
        R.section(k, b[k])
