"""Malformed text is an error message, never a crash.

Every function that reads, processes or writes back text is summarised together
with everything it calls; each operation that can panic (unwrap, indexing,
cutting a text, asserts, division) is an obligation: under the conditions known
at that point it must not fail. What the conditions refute is proved; what
nothing there speaks against is a violation; everything in between is listed as
inconclusive. The functions called through the API are covered by obligations of
their own, and by what the rules on them establish (C09: a blank posting has an
inferred amount, currencies that count as one are one; an envelope keeps all its
amounts in one currency, decided here)."""
import re

from ..base import *
from ..acc import *
from .. import pools
from .c16 import F

READ = ['posting::Posting::parse', 'entry::Entry::parse', 'account::Account::parse', 'envelope::Envelope::parse', 'envelope::Frequency::parse',
        'amount::Amount::parse', 'ledger::Ledger::from_file', 'importer::Rules::from_str', 'importer::CsvImporter::from_file',
        'importer::CsvImporter::from_file_with_rules', '<importer::CsvImporter as std::iter::Iterator>::next', 'importer::Rules::get_entry_from_record',
        'utils::remove_comments', 'ledger::Ledger::import_csv', 'ledger::Ledger::fill_envelopes', 'entry::Entry::as_parsable', 'posting::Posting::as_parsable',
        'entry::Entry::as_full_string']
PROC = ['entry::Entry::get_blank_amount', 'entry::Entry::has_mixed_currencies', 'account::Account::process_entry', 'envelope::Envelope::process_entry',
        'account::Account::get_available_value', 'account::Account::get_filling_postings', 'envelope::Envelope::get_filling_posting',
        'entry::Entry::as_register_data', 'ledger::Ledger::display_register', 'ledger::register::Register::display', 'ledger::Ledger::display_flat_balance',
        'ledger::Ledger::display_envelopes', 'account::Account::display_envelopes', 'main', '<amount::AmountPool as std::fmt::Display>::fmt']
OPTIONAL = {'<amount::AmountPool as std::fmt::Display>::fmt', 'importer::Rules::get_entry_from_record', 'main', 'entry::Entry::as_full_string', 'entry::Entry::has_mixed_currencies', 'ledger::Ledger::display_register'}
OTHER = re.compile(r'^(core::str|std::string|std::str|alloc::string)\b.*::(split_at|split_at_mut|truncate|remove|insert|insert_str|drain|replace_range|split_off|char_at)$')
FROMSTR = re.compile(r'(starts_with|ends_with|contains|eq_ignore_ascii_case|strip_prefix|strip_suffix)$')


ANA = []


def line(tr):
    f, l = tr[1] if isinstance(tr[1], tuple) else ('?', '?')
    return '%s:%s' % (f, l)


def leaf(tr):
    """innermost function of the program on the stack"""
    for n in reversed(tr[0]):
        if n.replace('<', '').startswith('silverfox::'):
            return n.replace('silverfox::', '')
    return tr[0][0] if tr[0] else '?'


# ------------------------------------------------------------------ positions in a text
def utf8(c):
    return 1 if c < 0x80 else 2 if c < 0x800 else 3 if c < 0x10000 else 4


def patlen(p):
    if p.op == 'int':
        return utf8(p.a[0])
    if p.op == 'str':
        return len(p.a[0].encode())
    return None


def offset(p):
    """term -> (base term or None, constant)"""
    n = num(p)
    if n is not None:
        return None, int(n)
    if p.op == 'lin':
        c = p.a[0]
        ts = [x for x in p.a[1:]]
        try:
            parts = lin_parts(p)
        except Exception:
            return p, None
        if len(parts[1]) == 1 and parts[1][0][1] == 1:
            return parts[1][0][0], int(parts[0])
        return p, None
    return p, 0


def lin_parts(p):
    """(constant, [(term, coefficient)])"""
    d = sub(p, Int(0))
    ts = [x for x in walk(p) if x.op != 'lin' and x is not p]
    top = []
    for x in atoms(p):
        top.append(x)
    if len(top) != 1:
        raise ValueError
    c = num(sub(p, top[0]))
    if c is None:
        raise ValueError
    return c, [(top[0], 1)]


def atoms(p):
    out = []

    def go(x):
        if isinstance(x, T):
            if x.op == 'lin':
                for y in x.a:
                    go(y)
            elif num(x) is None:
                out.append(x)
        elif isinstance(x, (tuple, list, frozenset)):
            for y in x:
                go(y)
    go(p)
    return out


def found_in(b):
    """position term -> (text searched, pattern) or None"""
    if b is not None and b.op == 'fld' and b.a[1] in ('Some.0',):
        x = b.a[0]
        if x.op == 'app' and str(x.a[0]).split('::')[-1] in ('find', 'rfind') and len(x.a) >= 3:
            return x.a[1], x.a[2]
        if x.op in ('find', 'rfind'):
            return x.a[0], x.a[1]
    return None


def shape(v, w):
    """how text w relates to text v: 'same', 'prefix' (w is the beginning of v), 'part' (v is a part of w), 'inner' (w is a part of v)"""
    if v is w:
        return 'same'

    def steps(x, target, ok):
        while x is not target:
            n = x.op if x.op != 'app' else str(x.a[0]).split('::')[-1]
            if n not in ok:
                return False
            y = x.a[0] if x.op != 'app' else x.a[1]
            if n == 'sub' and ok is PRE and len(x.a) > 1 and not (isinstance(x.a[1], T) and (x.a[1].op in ('agg', 'tuple', 'none') or x.a[1] is Int(0))):
                return False
            if not isinstance(y, T):
                return False
            x = y
        return True
    PRE = ('trim_end', 'remove_comments', 'trim_end_matches', 'sub')
    ANY = PRE + ('trim', 'trim_start', 'trim_start_matches', 'trim_matches')
    if steps(w, v, PRE):
        return 'prefix'
    if steps(w, v, ANY):
        return 'inner'
    if steps(v, w, ANY):
        return 'part'
    return None


def boundary(st, v, p):
    """True: certainly a character boundary within v; False: nothing says so; None: not understood"""
    if p is None:
        return True
    if p is raw('len', v):
        return True
    b, c = offset(p)
    if c is None:
        return None
    if b is None:
        if c == 0:
            return True
        if v.op == 'str':
            return c <= len(v.a[0].encode()) and (v.a[0].encode()[:c].decode('utf8', 'ignore').encode() == v.a[0].encode()[:c])
        about = [k for k in st.facts if isinstance(k, T) and contains(k, lambda x: x is v)]
        for k in about:
            if k.op == 'app' and str(k.a[0]).endswith('starts_with') and k.a[1] is v and E.decide(st, k) == 1 and k.a[2].op in ('str', 'int'):
                lit = k.a[2].a[0] if k.a[2].op == 'str' else chr(k.a[2].a[0])
                e = lit.encode()
                if c <= len(e):
                    try:
                        e[:c].decode('utf8')
                        return True
                    except UnicodeDecodeError:
                        return False
        if about:
            return None
        return False if tame(v) else None
    f = found_in(b)
    if f is None:
        return None
    w, pat = f
    how = shape(v, w)
    if how is None:
        return None
    n = patlen(pat)
    if how in ('same', 'prefix') and n is None and c > 0 and whitespace(pat):
        return None if about_pos(st, b) else False      # white space may take more than one byte
    if how in ('same', 'prefix'):
        if c == 0 or n is not None and c == n:
            return True
        if n is not None and 0 < c < n and pat.op == 'str':
            try:
                pat.a[0].encode()[:c].decode('utf8')
                return True
            except UnicodeDecodeError:
                return False
        if n is not None:
            return None if about_pos(st, b) else False
        return None
    if how == 'inner':
        return None if about_pos(st, b) else False
    return None if about_pos(st, b) else False


def whitespace(pat):
    """a pattern that is exactly `char::is_whitespace`"""
    if 'is_whitespace' in pp(pat) and pat.op != 'agg':
        return True
    if pat.op == 'agg' and str(pat.a[0]).startswith('closure:') and len(pat.a) == 2 and ANA:
        inst = ANA[0].p.insts.get(int(pat.a[0].split(':')[1])) if str(pat.a[0].split(':')[1]).isdigit() else None
        if inst and inst['body']:
            cs = [n for n, c, l, t in ANA[0].calls(inst)]
            return len(cs) == 1 and cs[0].endswith('is_whitespace') and not any(b['t'][0] == 'switch' for b in inst['body']['blocks'])
    return False


def about_pos(st, b):
    """the position is compared with something besides being found"""
    return any(isinstance(k, T) and k.op in ('lt', 'eq', 'le', 'app') and contains(k, lambda x: x is b) for k in st.facts)


def ordered(st, v, lo, hi):
    if lo is None or hi is None:
        return True
    if num(lo) == 0:
        return True
    d = E.decide(st, Lt(hi, lo))
    if d == 0:
        return True
    if d == 1:
        return False
    lb, lc = offset(lo)
    hb, hc = offset(hi)
    if lc is None or hc is None:
        return None
    if lb is not None and hb is not None and lb is not hb:
        r = E.decide(st, Lt(lb, hb))
        if r == 1 and lc - 1 <= hc:
            return True
        if r is None and E.decide(st, Lt(hb, lb)) == 0 and lc <= hc:
            return True
        fl, fh = found_in(lb), found_in(hb)
        if fl and fh:
            both = [k for k in st.facts if isinstance(k, T) and contains(k, lambda x: x is lb) and contains(k, lambda x: x is hb)]
            return None if any(k.op != 'eq' or E.decide(st, k) != 0 for k in both) else False
    return None


TAME = {'fld', 'sym', 'elem', 'int', 'num', 'str', 'words', 'lines', 'splits', 'join', 'from', 'take', 'app', 'discr', 'eq', 'lt', 'len', 'lin', 'sub', 'find', 'rfind',
        'not', 'chars', 'list', 'cat', 'agg', 'has', 'keys', 'setof', 'k', 'more', 'hit', 'loop', 'loopval', 'found', 'at', 'mput', 'tuple', 'lastof', 'firstof', 'records', 'phi', 'push', 'vec', 'concat', 'after'}


def tame(t):
    return all(x.op in TAME for x in walk(t))


# ------------------------------------------------------------------ refutations from other rules
def contradicts(ana, st):
    """What other rules establish rules this out: a reason or None"""
    fs = [(k, E.decide(st, k) if k.op != 'discr' else None) for k in st.facts if isinstance(k, T)]
    GB = 'entry::Entry::get_blank_amount'
    for k in list(st.facts):
        if not isinstance(k, T):
            continue
        if k.op == 'discr' and k.a[0].op == 'fld' and k.a[0].a[1] == 'Ok.0' and is_app(k.a[0].a[0], GB) and E.decide(st, Eq(k, Int(0))) == 1:
            posts = F(k.a[0].a[0].a[1], 'postings')
            for j in st.facts:
                if isinstance(j, T) and j.op == 'discr' and j.a[0].op == 'fld' and j.a[0].a[1] == 'amount' and contains(j, lambda x: x.op == 'elem' and under(x.a[0], posts)) and E.decide(st, Eq(j, Int(0))) == 1:
                    return 'C09: an amount is inferred for a blank posting'
    for k in st.facts:
        if isinstance(k, T) and is_app(k, 'entry::Entry::has_mixed_currencies') and E.decide(st, k) == 0:
            posts = F(k.a[1], 'postings')
            for j in st.facts:
                if isinstance(j, T) and j.op == 'eq' and E.decide(st, j) == 0 and all(
                        x.op == 'fld' and x.a[1] == 'symbol' and contains(x, lambda y: y.op == 'elem' and under(y.a[0], posts)) for x in j.a):
                    return 'C09: currencies that count as one are one'
    return None


def is_app(t, name):
    return t.op == 'app' and t.a[0] == name


def under(l, posts):
    while l is not posts and l.op in ('from', 'take', 'reversed', 'list', 'sorted'):
        l = l.a[0]
    return l is posts


def one_currency(ana, st, fs):
    """an envelope's amounts share a currency: is the partition impossible?"""
    a = F(Sym('P0'), 'amount', 'symbol')
    idx = [fs.index(f) for f in ('now_amount', 'next_amount')]

    def f(x):
        if x.op == 'fld' and x.a[1] == 'symbol':
            y = x.a[0]
            if y.op == 'fld' and y.a[0] is Sym('P0') and y.a[1] in ('now_amount', 'next_amount'):
                return a
            if y.op in ('phi', 'loopval') and "('arg', 0)" in repr(y.a[1]) and any(str(i) in re.findall(r'\d+', repr(y.a[1])) for i in idx):
                return a
        return None
    new = {}
    for k, v in st.facts.items():
        if not isinstance(k, T):
            continue
        k2 = subst(k, f, {})
        if v[0] == '=' and k2.op == 'int' and k2.a[0] != v[1]:
            return True
        if k2 in new and new[k2][0] == '=' and v[0] == '=' and new[k2][1] != v[1]:
            return True
        new[k2] = v
    # equality is transitive
    eqs = [k.a for k, v in new.items() if k.op == 'eq' and v == ('=', 1)]
    for k, v in new.items():
        if k.op == 'eq' and v == ('=', 0):
            x, y = k.a
            reach, todo = {x}, [x]
            while todo:
                z = todo.pop()
                for p, q in eqs:
                    for m, n in ((p, q), (q, p)):
                        if m is z and n not in reach:
                            reach.add(n)
                            todo.append(n)
            if y in reach:
                return True
    return False


# ------------------------------------------------------------------ is a failure certain to be possible?
def words_source(l):
    while l.op in ('from', 'take', 'list', 'reversed'):
        l = l.a[0]
    if l.op in ('words', 'lines', 'splits', 'chars') and isinstance(l.a[0], T):
        return l, l.a[0]
    return None


def harmless(st, k, src, i, base=None):
    """fact k on text src says nothing about how many words, lines or pieces there are beyond the first i"""
    if base is not None:
        def cut(x):
            if x.op == 'elem' and num(x.a[1]) is not None:
                b, off = peel_from(x.a[0])
                if b is base and off is not None and num(x.a[1]) + off < i:
                    return Sym('w%d' % (num(x.a[1]) + off))
            return None
        k2 = subst(k, cut, {})
        if not contains(k2, lambda x: x is src):
            return True
        if k.op == 'len' and k.a[0] is src or k.op in ('eq', 'lt') and any(x is raw('len', src) for x in k.a):
            if contains(base, lambda x: x.op == 'app' and str(x.a[0]).endswith('remove_comments') and x.a[1] is src) and (
                    k.op == 'lt' and (E.decide(st, k) == 1) == (num(k.a[0]) is not None) or k.op == 'len' and st.facts[k][0] == '!'):
                return True     # all of it may be a comment
            return i >= 1 and (num(k.a[0]) == 0 if k.op == 'lt' else True)
    if k.op == 'app' and FROMSTR.search(str(k.a[0])):
        p = k.a[2] if len(k.a) > 2 else None
        if E.decide(st, k) == 0:
            return True
        return p is not None and p.op == 'str' and i >= 1 and not re.search(r'\s', p.a[0].strip('')) and p.a[0].strip() == p.a[0]
    if k.op == 'eq':
        if any(x.op == 'str' for x in k.a):
            o = [x for x in k.a if x.op != 'str']
            return bool(o) and o[0].op == 'elem' or E.decide(st, k) == 0
        if any(num(x) is not None for x in k.a):
            return i >= 1
    if k.op == 'discr' and k.a[0].op == 'app':
        return not any(x.op in ('find', 'rfind') or x.op == 'app' and re.search(r'r?find$|r?split_once$|nth$|get$', str(x.a[0])) for x in walk(k))
    return False


def peel_from(l):
    off = 0
    while l.op in ('from', 'list'):
        if l.op == 'from':
            n = num(l.a[1])
            off = None if n is None or off is None else off + int(n)
        l = l.a[0]
    return l, off


def too_few(st, l, n):
    """may the list of pieces l of a text have no more than n of them?"""
    ws = words_source(l)
    if n is None or ws is None:
        return None
    base, src = ws
    b, off = peel_from(l)
    if b is base and off:
        n = n + off
    while (src.op in ('trim', 'trim_end', 'trim_start') or src.op == 'app' and str(src.a[0]).split('::')[-1] in ('remove_comments', 'trim', 'trim_end', 'trim_start')):
        src = src.a[0] if src.op != 'app' else src.a[1]
    for k in st.facts:
        if not isinstance(k, T) or not contains(k, lambda x: x is src):
            continue
        if k.op in ('lt', 'eq') and any(x.op == 'len' and words_source(x.a[0]) and words_source(x.a[0])[0] is base for x in k.a) or \
                k.op == 'len' and words_source(k.a[0]) and words_source(k.a[0])[0] is base:
            continue
        if not harmless(st, k, src, n, base):
            return None
    return 'element %s of %s, which may not have that many' % (n, pp(base)[:70])


def never_filled(st, l):
    """a list filled in a loop over something that may be empty, and nothing else known of it"""
    if l.op != 'loopval':
        return False
    lp = loop_of(l.a[0])
    init = dict(lp.inits).get(l.a[1])
    if init is None or init.op != 'vec' or len(init.a) or lp.it is None:
        return False
    src = lp.it
    for k in st.facts:
        if not isinstance(k, T):
            continue
        if contains(k, lambda x: x is l):
            if not (k.op == 'len' or k.op in ('lt', 'eq') and any(x.op == 'len' and x.a[0] is l for x in k.a)):
                return False
        elif contains(k, lambda x: x is src):
            return False
    return all(x.op in ('fld', 'sym', 'entries', 'iter', 'keys', 'values', 'list', 'refs', 'at') for x in walk(src))


def spelled(k, a):
    return contains(k, lambda y: y is a)


def differ(ana, st, fs, d):
    """an assertion that two currencies are the same, which nothing makes them -> description"""
    ks = [k for k in st.facts if isinstance(k, T)]
    own = {raw('fld', F(Sym('P0'), f), 'symbol') for f in ('amount', 'now_amount', 'next_amount')} if fs else set()
    if not (isinstance(d, tuple) and len(d) > 2 and isinstance(d[1], T) and isinstance(d[2], T)):
        return None
    x, y = d[1:3]
    a = Eq(x, y)
    if E.decide(st, a) != 0:
        return None
    if x in own:
        x, y = y, x
    if y not in own or not (x.op == 'fld' and x.a[1] == 'symbol') or x in own or not tame(x):
        return None
    for k in ks:
        if k is a or k.op == 'eq' and E.decide(st, k) == 0:
            continue
        if k.op == 'eq' and spelled(k, x) and any(spelled(k, z) for z in own):
            return None
        if k.op != 'eq' and k.op != 'discr' and spelled(k, x):
            return None
    # a posting taken as it was read: nothing but its own fields
    if any(z.op == 'app' for z in walk(x)):
        return None
    return 'an amount in another currency (%s) is added to the envelope\'s' % pp(x)[:90]


SEARCH = ('find', 'rfind', 'contains', 'starts_with', 'ends_with', 'strip_prefix', 'strip_suffix', 'split_once', 'rsplit_once')


def free_text(st):
    """All that is known: what some texts contain or do not contain (no text both contains and does not contain the
    same), how many words they have at least, what some words are, and what came of reading parts of them as numbers,
    dates or the like. A text of which all of it is true can be written down."""
    pos, neg, upper, fixed, read, n = [], [], [], [], [], 0
    for k in st.facts:
        if not isinstance(k, T):
            continue        # bounds, kept besides the facts they come from
        d = E.decide(st, k)
        if k.op == 'app' and str(k.a[0]).split('::')[-1] in SEARCH and k.a[2].op in ('str', 'int'):
            (pos if d == 1 else neg).append((k.a[1], k.a[2]))
            n += 1
        elif k.op == 'discr' and k.a[0].op == 'app' and str(k.a[0].a[0]).split('::')[-1] in SEARCH and k.a[0].a[2].op in ('str', 'int'):
            (pos if E.decide(st, Eq(k, Int(1))) == 1 else neg).append((k.a[0].a[1], k.a[0].a[2]))
            n += 1
        elif k.op == 'discr' and k.a[0].op == 'app' and str(k.a[0].a[0]).endswith(('from_str', 'parse', 'parse_from_str')):
            if not tame(k):
                return False
            read.append(E.decide(st, Eq(k, Int(0))) != 0)
        elif k.op == 'discr' and k.a[0].op == 'app' and str(k.a[0].a[0]).endswith(('read_to_string', 'parent', 'current_dir', 'canonicalize')):
            pass
        elif k.op == 'app' and str(k.a[0]).endswith('is_whitespace') and k.a[1].op == 'elem':
            pass
        elif k.op == 'more' or k.op == 'has':
            pass
        elif k.op in ('lt', 'len') and tame(k) and any(x.op == 'len' for x in (k, *k.a)) and (k.op == 'len' or any(num(x) is not None for x in k.a)):
            l = [x for x in (k, *k.a) if x.op == 'len'][0].a[0]
            if k.op == 'len' and st.facts[k][0] != '!' or k.op == 'lt' and (d == 0) == (k.a[1].op == 'len'):
                if words_source(l) is None and l.op != 'app':
                    return False
                upper.append(l)
                n += 1
        elif k.op == 'elem' and tame(k) and num(k.a[1]) is not None:
            pass
        elif k.op == 'fld' and tame(k) and st.facts[k][0] in ('=', 'in', '!'):
            if st.facts[k][0] != '!':
                fixed.append(k)
        elif k.op == 'found' and d == 0 and not any(ev for f, u, ev in loop_of(k.a[0]).parts):
            pass
        elif k.op == 'found' and d == 0 and not contains(loop_of(k.a[0]).it or Int(0), lambda x: x.op == 'words'):
            pass
        else:
            return False
    if fixed and any(read) or len(fixed) > 1:
        return False
    for l in upper:
        if any(contains(x, lambda y: y is z) for x, p in pos for z in walk(l) if z.op not in ('int', 'str')) and pos:
            return False

    def text(x):
        return x.a[0] if x.op == 'str' else chr(x.a[0])
    return n > 0 and not any(text(x) in text(y) or text(y) in text(x) and w is not v for w, x in neg for v, y in pos)


def certain(ana, s, st, kind, d, fs=()):
    """the failing condition is one that nothing known bears on -> description or None"""
    if kind in ('index', 'bounds', 'mapindex') and isinstance(d, tuple) and len(d) >= 2:
        if kind == 'mapindex':
            return None
        if num(d[1]) == 0 and never_filled(st, d[0]):
            return 'the first of %s, which may be empty' % pp(d[0])[:60]
        n, i = st.facts.get(E.length(d[0])), num(d[1])
        if n is not None and n[0] == '=' and isinstance(n[1], int) and i is not None and 1 <= n[1] <= i:
            return 'element %s of %s, where it has %d' % (i, pp(d[0])[:60], n[1])
        return too_few(st, d[0], num(d[1]))
    if kind == 'slice' and isinstance(d, tuple) and d[1] is not None:
        l, lo, hi = d
        b, c = offset(lo)
        if hi is None and b is not None and c is not None and b.op in ('hitpos', 'hit') and c >= 2:
            it = loop_of(b.a[0]).it
            for k in st.facts:
                if isinstance(k, T) and contains(k, lambda x: x is b):
                    if not (k.op == 'lt' and k.a[0] is E.length(l) and k.a[1] is lo):
                        return None
            if it is not None and contains(it, lambda x: x is l):
                return 'more than what follows the element found is skipped: %s' % pp(lo)[:60]
        return None
    if kind.startswith('panic:assert_failed'):
        return differ(ana, st, fs, d)
    if kind.startswith('panic:unwrap_failed') or kind.startswith('panic:expect_failed'):
        ks = [k for k in st.facts if isinstance(k, T)]
        if not ks:
            return None
        a = ks[-1]
        if a.op == 'lt' and num(a.a[0]) is not None and a.a[1].op == 'len' and E.decide(st, a) == 0:
            return too_few(st, a.a[1].a[0], num(a.a[0]))
        if a.op == 'discr' and a.a[0].op == 'app':
            x = a.a[0]
            name = str(x.a[0])
            if ('chrono' in name or 'ymd' in name) and not name.endswith(('parse_from_str', 'from_str')):
                return None
            args = [y for y in x.a[1:] if isinstance(y, T)]
            parse = name.endswith(('parse', 'from_str', 'parse_from_str'))
            for k in ks[:-1]:
                if contains(k, lambda y: y is x):
                    return None
                if parse and k.op == 'len':
                    continue
                if k.op == 'found' and any(contains(loop_of(k.a[0]).it, lambda y: y is z) for z in args if loop_of(k.a[0]).it is not None and z.op not in ('sym', 'int', 'str', 'num')):
                    return None
                if any(contains(k, lambda y: y is z) for z in args if z.op not in ('sym', 'int', 'str', 'num')) and not (k.op == 'app' and E.decide(st, k) == 0) and not name.endswith('parse'):
                    if parse and k.op == 'eq' and E.decide(st, k) == 0 or parse and k.op == 'elem' and E.decide(st, k) is None:
                        continue
                    return None
            if not tame(x):
                return None
            return '%s may fail' % pp(x)[:90]
        if free_text(st):
            return 'nothing makes sure that there is something to unwrap'
        return None
    if kind.startswith('panic:') and 'assert' not in kind and 'unwrap' not in kind and 'expect' not in kind:
        if 'unreachable' in kind:
            return None
        if all(tame(k) for k in st.facts if isinstance(k, T)) and not any(
                x.op in ('phi', 'loopval', 'found') for k in st.facts if isinstance(k, T) for x in walk(k)):
            return 'panic reached'
    return None


def underflow(st, a, b):
    """a position from which something is taken away though it may be 0"""
    n = num(b)
    if n is None or n < 1:
        return None
    base, c = offset(a)
    if base is None or c is None or c >= n:
        return None
    if base.op == 'hitpos' or found_in(base):
        rest = [k for k in st.facts if isinstance(k, T) and contains(k, lambda x: x is base)]
        if all(k is base or k.op == 'lt' and (k.a[0] is a and k.a[1] is b or k.a[0] is base and num(k.a[1]) is not None) for k in rest):
            return '%s is taken from a position that may be 0: %s' % (n, pp(a)[:70])
    return None


def run(ana, R):
    ANA[:] = [ana]
    inner = {}

    def whole():
        # what a due date is read from is known only where the header of the envelope is read
        s = ana.summ('envelope::Envelope::parse', inline=('envelope::Frequency::parse',))
        judge(ana, R, s, 'envelope::Envelope::parse (with due dates)', 'reading')
        inner['envelope::Frequency::parse'] = {(k, tr[1], leaf(tr)) for st, k, tr, d in s.panics}
    R.section('reading', whole)

    def go(name, rule, models=None):
        def f():
            try:
                s = ana.summ(name, models=models, key='c04' if models else None) if models else ana.summ(name)
            except Missing:
                if name in OPTIONAL:
                    R.ok(rule, '-', '%s is not there' % name)
                    return
                raise
            judge(ana, R, s, name, rule, inner)
        R.section(rule, f)
    for r in READ:
        go(r, 'reading')
    for r in PROC:
        go(r, 'processing', pools.models() if 'filling' in r or 'Register' in r or 'display' in r else None)
    for e in ('ParseError', 'ValidationError', 'ProcessingError'):
        R.section('errors', lambda e=e: shown_error(ana, R, 'errors::' + e))
    R.section('one-currency', lambda: invariant(ana, R))
    R.section('date-format', lambda: formats(ana, R))


def shown_error(ana, R, adt):
    """An error with a message and nothing to show beside it is shown without a panic."""
    ana.need_fields(adt, 'context', 'message')
    n = '<%s as std::fmt::Display>::fmt' % adt
    ana.fn(n)
    s = ana.summ(n, inline=(n,))
    me = Sym('P0')
    msg, ctx = (raw('fld', me, f) for f in ('message', 'context'))
    known = {discr(msg), discr(ctx)}
    for st, kind, tr, d in s.panics:
        if contradicts(ana, st):
            continue
        a, b = E.decide(st, Eq(discr(msg), Int(1))), E.decide(st, Eq(discr(ctx), Int(0)))
        if a == 0 or b == 0:
            continue
        if all(k in known or k.op == 'eq' and k.a[0] in known for k in st.facts if isinstance(k, T)):
            R.bad('errors', s.where, 'showing an error that has a message and no context panics', facts_str(st))
        else:
            R.unk('errors', s.where, 'showing an error: %s not decided' % kind)
    R.ok('errors', s.where, 'errors are shown with what they have')


def judge(ana, R, s, name, rule, inner={}):
    fs = ana.adt('envelope::Envelope')['variants'][0]['fields'] if name.startswith('envelope::Envelope::') else []
    done = {}

    def put(key, status, where, what, facts=()):
        rank = {'ok': 0, 'unk': 1, 'bad': 2}
        if key not in done or rank[done[key][0]] < rank[status]:
            done[key] = (status, where, what, facts)
    for st, kind, tr, d in s.panics:
        key = (kind, tr[1], leaf(tr))
        where = '%s (%s)' % (line(tr) if not line(tr).startswith('/') else s.where, leaf(tr))
        c = contradicts(ana, st)
        if c:
            put(key, 'ok', where, '%s: cannot fail (%s)' % (kind, c))
            continue
        if fs and {'amount', 'now_amount', 'next_amount'} <= set(fs) and one_currency(ana, st, fs):
            put(key, 'ok', where, '%s: cannot fail (all amounts of an envelope are in one currency)' % kind)
            continue
        if name in inner and key not in inner[name] and any(k.op == 'discr' and k.a[0].op == 'sym' for k in st.facts if isinstance(k, T)):
            put(key, 'ok', where, '%s: cannot fail where it is called' % kind)
            continue
        w = certain(ana, s, st, kind, d, fs)
        if w:
            put(key, 'bad', where, '%s: %s' % (name, w), facts_str(st))
        else:
            put(key, 'unk', where, '%s: %s not decided' % (name, kind))
    for st, v, lo, hi, tr in s.eng.strslices:
        key = ('cut', tr[1], leaf(tr))
        where = '%s (%s)' % (line(tr), leaf(tr))
        r = [boundary(st, v, lo), boundary(st, v, hi)]
        o = ordered(st, v, lo, hi)
        if all(x is True for x in r) and o is True:
            put(key, 'ok', where, 'text is cut where something was found in it')
        elif False in r:
            put(key, 'bad', where, '%s: text is cut at a position that need not be a character boundary within it: %s' % (name, pp(lo if r[0] is False else hi)[:80]), facts_str(st))
        elif o is False:
            put(key, 'bad', where, '%s: the end of the cut may lie before its start' % name, facts_str(st))
        else:
            put(key, 'unk', where, '%s: cut of %s not decided' % (name, pp(v)[:60]))
    for st, a, b, tr in s.eng.underflows:
        w = underflow(st, a, b)
        if w:
            put(('minus', tr[1], leaf(tr)), 'bad', '%s (%s)' % (line(tr), leaf(tr)), '%s: %s' % (name, w), facts_str(st))
    for st, where, what, facts in done.values():
        if st == 'ok':
            R.ok(rule, where, what)
        elif st == 'bad':
            R.bad(rule, where, what, facts)
        else:
            R.unk(rule, where, what)
    k = 0
    for i in s.eng.visited:
        inst = ana.p.insts.get(i)
        if inst and inst['local'] and inst['body']:
            k += 1
            for n, c, l, t in ana.calls(inst):
                if OTHER.search(n):
                    R.unk(rule, '%s:%s' % (inst['file'], l), '%s: %s not followed' % (inst['name'], n))
    R.ok(rule, s.where, '%s: %d functions, %d paths, no other operation that can fail' % (name, k, len(s.outs)))


def invariant(ana, R):
    """an envelope's amount, now_amount and next_amount are in one currency from the start and stay so"""
    P = 'envelope::Envelope'
    ana.need_fields(P, 'amount', 'now_amount', 'next_amount')
    fs = ana.adt(P)['variants'][0]['fields']
    af = ana.adt('amount::Amount')['variants'][0]['fields']

    def sym(t):
        return t.a[2 + af.index('symbol')] if t.op == 'agg' else raw('fld', t, 'symbol')
    s = ana.summ(P + '::parse')
    n = 0
    for st, v in s.outs:
        if not is_ok(v):
            continue
        o = payload_ok(v)
        if o.op != 'agg':
            R.unk('one-currency', s.where, 'envelope not built here: ' + pp(o)[:60])
            continue
        ys = [o.a[2 + fs.index(f)] for f in ('amount', 'now_amount', 'next_amount')]
        same(ana, R, s, st, ys, sym)
    s = ana.summ(P + '::process_entry')
    for st, v in s.outs:
        m = ana.mem(st, 0)
        if m is None or m.op != 'agg':
            continue
        for f in ('amount', 'now_amount', 'next_amount'):
            x = m.a[2 + fs.index(f)]
            keeps(ana, R, s, st, x, F(Sym('P0'), f), sym)


def same(ana, R, s, st, ys, sym):
    a = [sym(y) for y in ys]
    if a[0] is a[1] is a[2]:
        R.ok('one-currency', s.where, 'a new envelope holds its amounts in the currency it is for')
        return
    lv = [(y.a[0], True) if y.op == 'fld' and y.a[0].op == 'loopval' else (y, False) for y in a]
    lps = {x.a[0] for x, w in lv if x.op == 'loopval'}
    if len(lps) == 1 and all(x.op == 'loopval' or x.op == 'agg' and len(x.a) == 2 for x, w in lv):
        lp = loop_of(lps.pop())
        inits = dict(lp.inits)
        good = all(x.op != 'loopval' or x.a[1] in inits for x, w in lv)
        bad = None
        if good:
            i0 = [x if x.op != 'loopval' else sym(inits[x.a[1]]) if w else inits[x.a[1]] for x, w in lv]
            if not (i0[0] is i0[1] is i0[2]):
                good = None
            for f, u, ev in lp.parts:
                u = dict(u)
                new = []
                for x, w in lv:
                    z = u.get(x.a[1]) if x.op == 'loopval' else None
                    if z is None or z.op == 'phi' and z.a[1] == x.a[1] and z.a[0] is x.a[0]:
                        new.append(None)
                    else:
                        z = sym(z) if w else z
                        kept = w and z.op == 'fld' and z.a[1] == 'symbol' and z.a[0].op == 'phi' and z.a[0].a[1] == x.a[1]
                        new.append(None if kept else z)
                if all(z is None for z in new) or new[0] is new[1] is new[2]:
                    continue
                good = None
                if all(z is None or tame(z) and z.op in ('fld', 'elem', 'app', 'str') for z in new):
                    bad = (f, new)
        if good is True:
            R.ok('one-currency', s.where, 'reading an amount sets the currency of all three')
            return
        if bad and i0[0] is i0[1] is i0[2]:
            R.bad('one-currency', s.where, 'an envelope can be made whose amounts are in different currencies: %s' % '; '.join('unchanged' if z is None else pp(z)[:40] for z in bad[1]))
            return
    R.unk('one-currency', s.where, 'currencies of a new envelope: %s' % '; '.join(pp(x)[:60] for x in a))


def keeps(ana, R, s, st, x, old, sym):
    if x is old or sym(x) is raw('fld', old, 'symbol'):
        R.ok('one-currency', s.where, 'processing keeps the currency')
        return
    if x.op == 'loopval' or sym(x).op == 'loopval':
        t = x if x.op == 'loopval' else sym(x)
        a = acc(t)
        if a is not None and all(u is a.phi or sym(u) is raw('fld', a.phi, 'symbol') for f, u in a.rows):
            R.ok('one-currency', s.where, 'processing keeps the currency')
            return
    y = sym(x)
    if E.decide(st, Eq(y, raw('fld', old, 'symbol'))) == 1:
        R.ok('one-currency', s.where, 'processing keeps the currency')
        return
    R.unk('one-currency', s.where, 'currency becomes %s' % pp(y)[:80])


def formats(ana, R):
    """a date format that cannot be written with is refused when it is read"""
    P = 'ledger::Ledger'
    ana.need_fields(P, 'date_format')
    i = ana.adt(P)['variants'][0]['fields'].index('date_format')
    n = 0

    def fits(t, st):
        for k in st.facts:
            if not isinstance(k, T) or not contains(k, lambda x: x is t):
                continue
            if k.op == 'discr' and 'fmt_result' in pp(k) and contains(k, lambda x: x.op == 'app' and str(x.a[0]).endswith('::format')):
                return True if E.decide(st, Eq(k, Int(0))) == 1 else None
            if k.op not in ('len', 'lt', 'eq', 'elem'):
                return None
        return False

    for root in ('::from_file', '::add_from_file'):
        try:
            s = ana.summ(P + root)
        except Missing:
            continue
        where = {}
        for lp in loops_of(s):
            for f, u, ev in lp.parts:
                for path, t in u:
                    where.setdefault(t, fstate(f))
        for st, v in s.outs:
            where.setdefault(v, st)
            m = ana.mem(st, 0)
            if m is not None:
                where.setdefault(m, st)
        for x, st in where.items():
            for y in walk(x):
                if not (y.op == 'agg' and y.a[0] == 'silverfox::' + P and len(y.a) > 2 + i):
                    continue
                t = y.a[2 + i]
                if t.op == 'str' or t.op == 'fld' and t.a[1] == 'date_format':
                    continue
                n += 1
                g = fits(t, st)
                if g is True:
                    R.ok('date-format', s.where, 'a date format is tried before it is kept')
                elif g is False and t.op == 'elem' and words_source(t.a[0]):
                    R.bad('date-format', s.where, 'a date format (%s) is kept untried; writing a date with a bad one panics' % pp(t)[:80], facts_str(st))
                else:
                    R.unk('date-format', s.where, 'date format becomes %s' % pp(t)[:80])
    if not n:
        R.unk('date-format', '-', 'where the date format is kept was not found')


def loops_of(s):
    out, todo = [], [v for st, v in s.outs] + [k for st, v in s.outs for k in st.facts if isinstance(k, T)]
    seen = set()
    while todo:
        for x in walk(todo.pop()):
            if x.op == 'loop' and x not in seen:
                seen.add(x)
                lp = loop_of(x)
                out.append(lp)
                todo += [t for f, u, ev in lp.parts for p, t in u] + [k for f, u, ev in lp.parts for k, w in f if isinstance(k, T)]
    return out
